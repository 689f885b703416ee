#include "world.h"
using namespace sim;
namespace {
// Three alternatives that can fail at everything: assignments need the temporary heap backup.
struct AllThrow : CfgDefaults {
    typedef El<1> A; typedef El<2, 0, 24> B; typedef El<3, F_SWAP, 1> C;
    typedef boost::variant<A, B, C> V;
    typedef TL<A, B, C> alts;
    typedef boost::variant<C, A> F;
    typedef TL<C, A> falts;
    static int fmap(int k) { return k == 0 ? 2 : 0; }
    enum { foreign = 1, src = 1, src_alt = 1 };
    static const char* name() { return "all_throw"; }
};
SIM_CFG(AllThrow)
}
