#include <boost/mpl/vector/vector40.hpp>
#include "world.h"
using namespace sim;
namespace {
// Forty-odd small alternatives with a fallback in the second half of the list.
template <int N> struct Y { typedef El<40 + N, (N == 31 ? F_NTDEF : N % 4 == 1 ? F_NTMOVE : 0u)> t; };
struct Large2 : CfgDefaults {
    typedef boost::mpl::vector40<Y<0>::t, Y<1>::t, Y<2>::t, Y<3>::t, Y<4>::t, Y<5>::t, Y<6>::t, Y<7>::t, Y<8>::t, Y<9>::t,
        Y<10>::t, Y<11>::t, Y<12>::t, Y<13>::t, Y<14>::t, Y<15>::t, Y<16>::t, Y<17>::t, Y<18>::t, Y<19>::t,
        Y<20>::t, Y<21>::t, Y<22>::t, Y<23>::t, Y<24>::t, Y<25>::t, Y<26>::t, Y<27>::t, Y<28>::t, Y<29>::t,
        Y<30>::t, Y<31>::t, Y<32>::t, Y<33>::t, Y<34>::t, Y<35>::t, Y<36>::t, Y<37>::t, Y<38>::t, Y<39>::t> Seq;
    typedef boost::make_variant_over<Seq>::type V;
    typedef TL<Y<0>::t, Y<1>::t, Y<2>::t, Y<3>::t, Y<4>::t, Y<5>::t, Y<6>::t, Y<7>::t, Y<8>::t, Y<9>::t,
        Y<10>::t, Y<11>::t, Y<12>::t, Y<13>::t, Y<14>::t, Y<15>::t, Y<16>::t, Y<17>::t, Y<18>::t, Y<19>::t,
        Y<20>::t, Y<21>::t, Y<22>::t, Y<23>::t, Y<24>::t, Y<25>::t, Y<26>::t, Y<27>::t, Y<28>::t, Y<29>::t,
        Y<30>::t, Y<31>::t, Y<32>::t, Y<33>::t, Y<34>::t, Y<35>::t, Y<36>::t, Y<37>::t, Y<38>::t, Y<39>::t> alts;
    enum { visit2 = 0, cont = 0, tags = P14 };
    static const char* name() { return "larger_sequence"; }
};
SIM_CFG(Large2)
}
