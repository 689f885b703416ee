#include "world.h"
using namespace sim;
namespace {
// Very different sizes and alignments.
struct Align : CfgDefaults {
    typedef Tiny<1> A; typedef El<2, 0, 200> B; typedef El<3, 0, 8, 64> C; typedef Tiny<4, F_NTMOVE> D;
    typedef boost::variant<A, B, C, D> V;
    typedef TL<A, B, C, D> alts;
    typedef boost::variant<C, A> F;
    typedef TL<C, A> falts;
    static int fmap(int k) { return k == 0 ? 2 : 0; }
#if __cplusplus >= 201703L
    enum { foreign = 1 };
#else
    enum { foreign = 1, cont = 0 };
#endif
    static const char* name() { return "sizes_alignments"; }
};
#if __cplusplus >= 201703L
SIM_CFG(Align)
#endif
struct TinyOnly : CfgDefaults {         // smaller than a pointer: the backup must still fit
    typedef Tiny<1> A; typedef Tiny<2> B;
    typedef boost::variant<A, B> V;
    typedef TL<A, B> alts;
    static const char* name() { return "tiny_only"; }
};
SIM_CFG(TinyOnly)
}
