#include "world.h"
using namespace sim;
namespace {
// Content much larger than a pointer, with every kind of promise about copying and moving.
struct Big : CfgDefaults {
    typedef El<1, F_NTMOVE, 400> A; typedef El<2, F_NTALL, 120> B; typedef El<3, 0, 80> C; typedef El<4, F_NTCOPY, 1000> D;
    typedef boost::variant<A, B, C, D> V;
    typedef TL<A, B, C, D> alts;
    typedef boost::variant<D, C> F;
    typedef TL<D, C> falts;
    static int fmap(int k) { return k == 0 ? 3 : 2; }
    enum { foreign = 1 };
    static const char* name() { return "big"; }
};
SIM_CFG(Big)
struct BigFb : CfgDefaults {
    typedef El<1, 0, 300> A; typedef El<2, F_NTDEF, 500> B; typedef El<3, F_NTMOVE, 72> C;
    typedef boost::variant<A, B, C> V;
    typedef TL<A, B, C> alts;
    static const char* name() { return "big_fallback"; }
};
SIM_CFG(BigFb)
}
