#include "odd.h"
using namespace sim;
namespace {
// Awkward types behind a wrapper.
struct OddWrap : CfgDefaults {
    typedef Emp<1> A; typedef ElList<2> B; typedef Emp<3> C; typedef ElList<4, F_NTMOVE> D;
    typedef boost::variant<A, boost::recursive_wrapper<B>, boost::recursive_wrapper<C>, D> V;
    typedef TL<A, boost::recursive_wrapper<B>, boost::recursive_wrapper<C>, D> alts;
    typedef boost::variant<B, D, C> F;
    typedef TL<B, D, C> falts;
    static int fmap(int k) { return k == 0 ? 1 : k == 1 ? 3 : 2; }
    enum { tags = P10, plain = 0, foreign = 1 };
    static const char* name() { return "odd_wrapped"; }
};
SIM_CFG(OddWrap)
}
