#include "world.h"
using namespace sim;
namespace {
// boost::blank listed last, another nothrow-default-constructible alternative before it: the fallback must be blank.
struct BlankLast : CfgDefaults {
    typedef El<1> A; typedef El<2, F_NTDEF, 24> B; typedef El<3, F_NTCOPY> C;
    typedef boost::variant<A, B, C, boost::blank> V;
    typedef TL<A, B, C, boost::blank> alts;
    typedef boost::variant<boost::blank, A> F;
    typedef TL<boost::blank, A> falts;
    static int fmap(int k) { return k == 0 ? 3 : 0; }
    enum { foreign = 1, src = 1, src_alt = 0 };
    static const char* name() { return "blank_last"; }
};
SIM_CFG(BlankLast)
}
