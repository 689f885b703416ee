#include <boost/mpl/vector/vector30.hpp>
#include "world.h"
using namespace sim;
namespace {
// More alternatives than one visitation switch handles, given as a sequence; no fallback: contents beyond the first
// switch go through the heap-backup path too.
struct Large : CfgDefaults {
    typedef El<1> A; typedef El<2, F_NTMOVE> B; typedef El<3, 0, 24> C; typedef El<4, F_NTCOPY> D; typedef El<5> E;
    template <int N> struct X { typedef El<30 + N, (N % 5 == 4 ? F_NTMOVE : 0u), 8 + N % 3 * 8> t; };
    typedef boost::mpl::vector24<A, B, X<2>::t, X<3>::t, X<4>::t, X<5>::t, X<6>::t, X<7>::t, X<8>::t, X<9>::t, X<10>::t, X<11>::t,
        X<12>::t, X<13>::t, X<14>::t, X<15>::t, X<16>::t, X<17>::t, X<18>::t, X<19>::t, C, D, E, X<23>::t> Seq;
    typedef boost::make_variant_over<Seq>::type V;
    typedef TL<A, B, X<2>::t, X<3>::t, X<4>::t, X<5>::t, X<6>::t, X<7>::t, X<8>::t, X<9>::t, X<10>::t, X<11>::t,
        X<12>::t, X<13>::t, X<14>::t, X<15>::t, X<16>::t, X<17>::t, X<18>::t, X<19>::t, C, D, E, X<23>::t> alts;
    typedef boost::variant<E, X<23>::t, A> F;
    typedef TL<E, X<23>::t, A> falts;
    static int fmap(int k) { return k == 0 ? 22 : k == 1 ? 23 : 0; }
    enum { foreign = 1, visit2 = 0, cont = 0, tags = P14 };
    static const char* name() { return "large_sequence"; }
};
SIM_CFG(Large)
}
