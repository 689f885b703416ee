#include <boost/mpl/joint_view.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/filter_view.hpp>
#include <boost/mpl/push_back.hpp>
#include <boost/mpl/vector_c.hpp>
#include "world.h"
using namespace sim;
namespace {
// The same variants given as type sequences of every kind.
struct OverVector : CfgDefaults {
    typedef El<1> A; typedef El<2, F_NTMOVE, 24> B; typedef El<3> C;
    typedef boost::make_variant_over<boost::mpl::vector<A, B, C> >::type V;
    typedef TL<A, B, C> alts;
    typedef boost::variant<C, A> F;
    typedef TL<C, A> falts;
    static int fmap(int k) { return k == 0 ? 2 : 0; }
    enum { foreign = 1, src = 1, src_alt = 1, tags = P14 };
    static const char* name() { return "over_vector"; }
};
SIM_CFG(OverVector)
struct OverJoint : CfgDefaults {
    typedef El<1> A; typedef El<2, F_NTDEF, 24> B; typedef El<3> C; typedef El<4, F_NTALL> D;
    typedef boost::make_variant_over<boost::mpl::joint_view<boost::mpl::list<A, D>, boost::mpl::vector<C, B> > >::type V;
    typedef TL<A, D, C, B> alts;
    typedef boost::make_variant_over<boost::mpl::list<B, A> >::type F;
    typedef TL<B, A> falts;
    static int fmap(int k) { return k == 0 ? 3 : 0; }
    enum { foreign = 1, tags = P14 };
    static const char* name() { return "over_joint_view"; }
};
SIM_CFG(OverJoint)
struct OverPush : CfgDefaults {
    typedef El<1> A; typedef El<2> B; typedef boost::recursive_wrapper<El<3> > C;
    typedef boost::make_variant_over<boost::mpl::push_back<boost::mpl::vector<A, C>, B>::type>::type V;
    typedef TL<A, C, B> alts;
    enum { plain = 0, tags = P14 | P10 };
    static const char* name() { return "over_pushed"; }
};
SIM_CFG(OverPush)
}
