#include "conc.h"
using namespace sim;
namespace {
// Fallback, wrapped and standard-library contents.
struct ConcMix : CfgDefaults {
    typedef El<1> A; typedef El<2, F_NTDEF> B; typedef El<3, 0, 24> C;
    typedef boost::variant<A, B, boost::recursive_wrapper<C>, int> V;
    typedef TL<A, B, boost::recursive_wrapper<C>, int> alts;
    enum { plain = 0 };
    static const char* name() { return "threads_mixed"; }
};
SIM_CONC(ConcMix)
}
