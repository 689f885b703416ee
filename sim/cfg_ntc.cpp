#include "world.h"
using namespace sim;
namespace {
// Every alternative can be copied or moved without failing, but not every one can be moved without failing.
struct NtCopy : CfgDefaults {
    typedef El<1, F_NTCOPY> A; typedef El<2, F_NTALL> B; typedef El<3, F_NTCOPY | F_NTASG, 24> C;
    typedef boost::variant<A, B, C> V;
    typedef TL<A, B, C> alts;
    typedef boost::variant<C, B> F;
    typedef TL<C, B> falts;
    static int fmap(int k) { return k == 0 ? 2 : 1; }
    enum { foreign = 1 };
    static const char* name() { return "nothrow_copy"; }
};
SIM_CFG(NtCopy)
// Everything nothrow: assignments are noexcept.
struct NtAll : CfgDefaults {
    typedef El<1, F_NTALL | F_NTASG | F_NTDEF> A; typedef El<2, F_NTMOVE | F_NTASG, 24> B; typedef int C;
    typedef boost::variant<A, B, C> V;
    typedef TL<A, B, C> alts;
    enum { wide = 0 };
    static const char* name() { return "nothrow_everything"; }
};
SIM_CFG(NtAll)
}
