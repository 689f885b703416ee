#include "world.h"
using namespace sim;
namespace {
// The everyday variant: number, string, something that can fail.
struct Pod : CfgDefaults {
    typedef El<1> A;
    typedef boost::variant<int, std::string, A, double> V;
    typedef TL<int, std::string, A, double> alts;
    typedef boost::variant<std::string, A> F;
    typedef TL<std::string, A> falts;
    static int fmap(int k) { return k + 1; }
    enum { foreign = 1, exact = 0, wide = 0, src = 1, src_alt = 2 };
    static const char* name() { return "int_string"; }
};
SIM_CFG(Pod)
}
