#include "world.h"
using namespace sim;
namespace {
struct MoveOnly : CfgDefaults {
    typedef Mo<1, F_NTMOVE> A; typedef Mo<2, F_NTMOVE, 24> B; typedef El<3, F_NTMOVE> C;
    typedef boost::variant<A, B, C> V;
    typedef TL<A, B, C> alts;
    typedef boost::variant<B, A> F;
    typedef TL<B, A> falts;
    static int fmap(int k) { return k == 0 ? 1 : 0; }
    enum { copyable = 0 };
    static const char* name() { return "move_only"; }
};
SIM_CFG(MoveOnly)
}
