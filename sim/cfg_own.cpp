#include "odd.h"
#include <boost/variant/recursive_wrapper.hpp>
using namespace sim;
namespace {
// Types with their own operator new, also behind a wrapper.
struct Own : CfgDefaults {
    typedef ElOwn<1> A; typedef El<2> B; typedef ElOwn<3, F_NTMOVE> C; typedef ElOwn<4, F_NTCOPY> D;
    typedef boost::variant<A, B, C, D> V;
    typedef TL<A, B, C, D> alts;
    typedef boost::variant<D, A> F;
    typedef TL<D, A> falts;
    static int fmap(int k) { return k == 0 ? 3 : 0; }
    enum { foreign = 1 };
    static const char* name() { return "own_memory"; }
};
SIM_CFG(Own)
// A type that anything converts to.
struct Any : CfgDefaults {
    typedef ElAny<1> A; typedef El<2> B; typedef El<3, F_NTMOVE> C; typedef El<4> D;
    typedef boost::variant<B, A, C, D> V;
    typedef TL<B, A, C, D> alts;
    typedef boost::variant<D, B, A> F;
    typedef TL<D, B, A> falts;
    static int fmap(int k) { return k == 0 ? 3 : k == 1 ? 0 : 1; }
    enum { foreign = 1 };
    static const char* name() { return "made_from_anything"; }
};
SIM_CFG(Any)
// Both behind wrappers.
struct OwnW : CfgDefaults {
    typedef ElOwn<1> A; typedef ElOwn<2, F_NTMOVE> B; typedef ElAny<3> C; typedef El<4> D;
    typedef boost::variant<boost::recursive_wrapper<A>, D, boost::recursive_wrapper<B>, boost::recursive_wrapper<C> > V;
    typedef TL<boost::recursive_wrapper<A>, D, boost::recursive_wrapper<B>, boost::recursive_wrapper<C> > alts;
    typedef boost::variant<B, boost::recursive_wrapper<A>, boost::recursive_wrapper<C> > F;
    typedef TL<B, boost::recursive_wrapper<A>, boost::recursive_wrapper<C> > falts;
    static int fmap(int k) { return k == 0 ? 2 : k == 1 ? 0 : 3; }
    enum { tags = P10, plain = 0, foreign = 1 };
    static const char* name() { return "own_wrapped"; }
};
SIM_CFG(OwnW)
}
