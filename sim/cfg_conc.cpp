#include "conc.h"
using namespace sim;
namespace {
// No fallback: heap-backup states in every thread and among the shared variants.
struct ConcThrow : CfgDefaults {
    typedef El<1> A; typedef El<2, F_NTMOVE, 24> B; typedef El<3> C;
    typedef boost::variant<A, B, C> V;
    typedef TL<A, B, C> alts;
    typedef boost::variant<C, A> F;
    typedef TL<C, A> falts;
    static int fmap(int k) { return k == 0 ? 2 : 0; }
    enum { foreign = 1 };
    static const char* name() { return "threads_all_throw"; }
};
SIM_CONC(ConcThrow)
}
