#include "world.h"
using namespace sim;
namespace {
// Everything nothrow movable: the variant's own move must be noexcept and used by containers.
struct AllNtMove : CfgDefaults {
    typedef El<1, F_NTMOVE> A; typedef El<2, F_NTALL | F_NTASG, 24> B; typedef El<3, F_NTMOVE | F_SWAP | F_NTASG> C;
    typedef boost::variant<A, B, C> V;
    typedef TL<A, B, C> alts;
    typedef boost::variant<B, A> F;
    typedef TL<B, A> falts;
    static int fmap(int k) { return k == 0 ? 1 : 0; }
    enum { foreign = 1, src = 1, src_alt = 0 };
    static const char* name() { return "all_nothrow_move"; }
};
SIM_CFG(AllNtMove)
}
