#include "odd.h"
using namespace sim;
namespace {
struct OddCfg : CfgDefaults {
    typedef Emp<1> A; typedef ElList<2> B; typedef El<3, F_NTASG> C; typedef Emp<4, F_NTALL> D;
    typedef boost::variant<A, B, C, D> V;
    typedef TL<A, B, C, D> alts;
    typedef boost::variant<D, B> F;
    typedef TL<D, B> falts;
    static int fmap(int k) { return k == 0 ? 3 : 1; }
    enum { foreign = 1 };
    static const char* name() { return "odd_types"; }
};
SIM_CFG(OddCfg)
struct OddFb : CfgDefaults {
    typedef ElList<1, F_NTMOVE> A; typedef Emp<2, F_NTDEF> B; typedef El<3, F_NTASG | F_NTCOPY> C;
    typedef boost::variant<A, C, B> V;
    typedef TL<A, C, B> alts;
    static const char* name() { return "odd_fallback"; }
};
SIM_CFG(OddFb)
}
