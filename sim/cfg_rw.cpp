#include "world.h"
using namespace sim;
namespace {
// recursive_wrapper around plain alternatives: transparent, content always on the heap.
struct Wrap : CfgDefaults {
    typedef El<1> A; typedef El<2, 0, 24> B; typedef El<3, F_NTMOVE> C;
    typedef boost::variant<A, boost::recursive_wrapper<B>, boost::recursive_wrapper<C> > V;
    typedef TL<A, boost::recursive_wrapper<B>, boost::recursive_wrapper<C> > alts;
    typedef boost::variant<boost::recursive_wrapper<C>, boost::recursive_wrapper<B>, A> F;
    typedef TL<boost::recursive_wrapper<C>, boost::recursive_wrapper<B>, A> falts;
    static int fmap(int k) { return 2 - k; }
    enum { tags = P10, plain = 0, foreign = 1 };
    static const char* name() { return "wrapped"; }
};
SIM_CFG(Wrap)
struct WrapFb : CfgDefaults {
    typedef El<1> A; typedef El<2, F_NTDEF, 24> B;
    typedef boost::variant<boost::recursive_wrapper<A>, boost::blank, boost::recursive_wrapper<B> > V;
    typedef TL<boost::recursive_wrapper<A>, boost::blank, boost::recursive_wrapper<B> > alts;
    typedef boost::variant<B, boost::recursive_wrapper<A> > F;       // an unwrapped source converts to wrapped content
    typedef TL<B, boost::recursive_wrapper<A> > falts;
    static int fmap(int k) { return k == 0 ? 2 : 0; }
    enum { tags = P10, plain = 0, foreign = 1 };
    static const char* name() { return "wrapped_blank"; }
};
SIM_CFG(WrapFb)
}
