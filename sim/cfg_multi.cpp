#include "world.h"
using namespace sim;
namespace {
// Two alternatives, no fallback: visitation of three to five operands in every mix of states.
struct Multi : CfgDefaults {
    typedef El<1> A; typedef El<2, F_NTMOVE> B;
    typedef boost::variant<A, B> V;
    typedef TL<A, B> alts;
    enum { visitn = 1, cont = 0, cmp = 0, stream = 0 };
    static const char* name() { return "multi"; }
};
SIM_CFG(Multi)
struct MultiMo : CfgDefaults {
    typedef Mo<1, F_NTMOVE> A; typedef Mo<2, F_NTMOVE, 24> B;
    typedef boost::variant<A, B> V;
    typedef TL<A, B> alts;
    enum { copyable = 0, visitn = 1, cont = 0, cmp = 0, stream = 0 };
    static const char* name() { return "multi_move_only"; }
};
SIM_CFG(MultiMo)
}
