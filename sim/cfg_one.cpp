#include "world.h"
using namespace sim;
namespace {
struct OneType : CfgDefaults {
    typedef El<1> A;
    typedef boost::variant<A> V;
    typedef TL<A> alts;
    enum { src = 1, src_alt = 0 };
    static const char* name() { return "one_type"; }
};
SIM_CFG(OneType)
// Alternatives that convert to one another: the exact type must win.
struct Numbers : CfgDefaults {
    typedef El<1> A;
    typedef boost::variant<char, int, unsigned, double, A, float> V;
    typedef TL<char, int, unsigned, double, A, float> alts;
    typedef boost::variant<double, unsigned> F;
    typedef TL<double, unsigned> falts;
    static int fmap(int k) { return k == 0 ? 3 : 2; }
    enum { foreign = 1 };
    static const char* name() { return "numbers"; }
};
SIM_CFG(Numbers)
}
