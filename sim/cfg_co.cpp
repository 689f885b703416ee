#include "world.h"
using namespace sim;
namespace {
// Types without move operations.
struct CopyOnly : CfgDefaults {
    typedef ElC<1> A; typedef ElC<2, F_NTCOPY, 24> B; typedef El<3> C;
    typedef boost::variant<A, B, C> V;
    typedef TL<A, B, C> alts;
    typedef boost::variant<C, A> F;
    typedef TL<C, A> falts;
    static int fmap(int k) { return k == 0 ? 2 : 0; }
    enum { foreign = 1, copyonly = 1 };
    static const char* name() { return "copy_only"; }
};
SIM_CFG(CopyOnly)
}
