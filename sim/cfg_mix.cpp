#include "world.h"
using namespace sim;
namespace {
// Every combination of nothrow copy / nothrow move, no fallback.
struct MixNt : CfgDefaults {
    typedef El<1> A; typedef El<2, F_NTMOVE, 24> B; typedef El<3, F_NTCOPY> C; typedef El<4, F_NTALL | F_SWAP, 16> D; typedef El<5, 0, 40> E;
    typedef boost::variant<A, B, C, D, E> V;
    typedef TL<A, B, C, D, E> alts;
    typedef boost::variant<C, A> F;
    typedef TL<C, A> falts;
    static int fmap(int k) { return k == 0 ? 2 : 0; }
    enum { foreign = 1, src = 1, src_alt = 1 };
    static const char* name() { return "mix_nothrow"; }
};
SIM_CFG(MixNt)
}
