#include "world.h"
using namespace sim;
namespace {
// Alternatives that are base classes of other alternatives, at offset zero and not: a type is found only as itself, nothing is sliced.
struct Derv : CfgDefaults {
    typedef ElP1<1> A; typedef El<1> B; typedef ElP2<1> C; typedef ElP3<4> D;
    typedef boost::variant<A, B, C, D> V;
    typedef TL<A, B, C, D> alts;
    typedef boost::variant<C, D, A> F;
    typedef TL<C, D, A> falts;
    static int fmap(int k) { return k == 0 ? 2 : k == 1 ? 3 : 0; }
    enum { poly = 1, foreign = 1 };
    static const char* name() { return "base_and_derived"; }
};
SIM_CFG(Derv)
struct DervNt : CfgDefaults {
    typedef El<1, F_NTMOVE> B; typedef ElP2<1, F_NTMOVE> C; typedef ElP3<2, F_NTDEF> E; typedef El<2, F_NTDEF> D;
    typedef boost::variant<B, C, E, D> V;
    typedef TL<B, C, E, D> alts;
    typedef boost::variant<D, C> F;
    typedef TL<D, C> falts;
    static int fmap(int k) { return k == 0 ? 3 : 1; }
    enum { poly = 1, foreign = 1 };
    static const char* name() { return "base_and_derived_fallback"; }
};
SIM_CFG(DervNt)
}
