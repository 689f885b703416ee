#include "world.h"
using namespace sim;
namespace {
// A nothrow-default-constructible tracer is the only fallback, in the middle.
struct Fallback : CfgDefaults {
    typedef El<1> A; typedef El<2, F_NTDEF, 24> B; typedef El<3, 0, 4> C; typedef El<4, F_NTMOVE> D;
    typedef boost::variant<A, B, C, D> V;
    typedef TL<A, B, C, D> alts;
    typedef boost::variant<D, C> F;
    typedef TL<D, C> falts;
    static int fmap(int k) { return k == 0 ? 3 : 2; }
    enum { foreign = 1, src = 1, src_alt = 1 };
    static const char* name() { return "fallback_middle"; }
};
SIM_CFG(Fallback)
}
