#include "world.h"
using namespace sim;
namespace {
struct BlankFirst : CfgDefaults {
    typedef El<1, F_NTMOVE> A; typedef El<2, 0, 24> B; typedef El<3, 0, 3> C;
    typedef boost::variant<boost::blank, A, B, C> V;
    typedef TL<boost::blank, A, B, C> alts;
    typedef boost::variant<B, C> F;
    typedef TL<B, C> falts;
    static int fmap(int k) { return k + 2; }
    enum { foreign = 1, src = 1, src_alt = 2 };
    static const char* name() { return "blank_first"; }
};
SIM_CFG(BlankFirst)
}
