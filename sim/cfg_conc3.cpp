#include "conc.h"
using namespace sim;
namespace {
// Visitation of up to five operands from several threads.
struct ConcMulti : CfgDefaults {
    typedef El<1> A; typedef El<2, F_NTMOVE> B;
    typedef boost::variant<A, B> V;
    typedef TL<A, B> alts;
    enum { visitn = 1, cont = 0 };
    static const char* name() { return "threads_multi"; }
};
SIM_CONC(ConcMulti)
}
