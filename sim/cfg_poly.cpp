#include "world.h"
using namespace sim;
namespace {
// Alternatives with common bases at different offsets (polymorphic_get), and one whose operator& lies.
struct Poly : CfgDefaults {
    typedef ElP1<1> A; typedef ElP2<2> B; typedef ElP3<3> C; typedef El<4> D; typedef ElP4<5> E;
    typedef boost::variant<D, B, C, A, E> V;
    typedef TL<D, B, C, A, E> alts;
    enum { poly = 1 };
    static const char* name() { return "polymorphic"; }
};
SIM_CFG(Poly)
struct PolyNt : CfgDefaults {
    typedef ElP2<2, F_NTMOVE> B; typedef ElP3<3> C;
    typedef boost::variant<boost::blank, C, B> V;
    typedef TL<boost::blank, C, B> alts;
    enum { poly = 1 };
    static const char* name() { return "polymorphic_blank"; }
};
SIM_CFG(PolyNt)
struct Amp : CfgDefaults {
    typedef ElAmp<1> A; typedef ElAmp<2, F_NTMOVE> B; typedef El<3> C;
    typedef boost::variant<A, B, C> V;
    typedef TL<A, B, C> alts;
    typedef boost::variant<C, A> F;
    typedef TL<C, A> falts;
    static int fmap(int k) { return k == 0 ? 2 : 0; }
    enum { foreign = 1 };
    static const char* name() { return "lying_address"; }
};
SIM_CFG(Amp)
}
