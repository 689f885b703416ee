#include "tree.h"
#include <boost/mpl/vector.hpp>
#include <boost/mpl/list.hpp>
using namespace sim;
// Recursive variants over a type sequence: a fallback type that is not first, a pair, nested containers of the variant.
typedef El<1> TLeaf;
typedef El<2, F_NTMOVE | F_NTDEF> TNone;
typedef boost::make_recursive_variant_over<boost::mpl::list<TLeaf, std::pair<int, std::vector<boost::recursive_variant_> >,
                                                            TNone, std::vector<boost::recursive_variant_> > >::type OTree;
typedef std::vector<OTree> OVec;
typedef std::pair<int, OVec> OPair;
namespace sim {
typedef TL<TLeaf, OPair, TNone, OVec> OTreeL;
template <> struct Val<OVec> : ValTree<OVec> {
    static u64 canon(const OVec& v) {
        u64 h = 99;
        CanonV<OTree, OTreeL> c;
        for (std::size_t i = 0; i < v.size(); ++i) h = canon_fold(h, boost::apply_visitor(c, v[i]));
        return h;
    }
    static OVec make(int v);
    static void set(OVec& x, int v) { OVec t(make(v)); x.swap(t); }
    static u64 canon_of(int v) { return canon(make(v)); }
    static u64 defv() { return 99; }
    static int tag() { return 224; }
};
template <> struct Val<OPair> : ValTree<OPair> {
    static u64 canon(const OPair& v) { return canon_fold(static_cast<u64>(v.first) + 7, Val<OVec>::canon(v.second)); }
    static OPair make(int v) { return OPair(v, Val<OVec>::make(v / 2)); }
    static void set(OPair& x, int v) { OPair t(make(v)); x.first = t.first; x.second.swap(t.second); }
    static u64 canon_of(int v) { return canon(make(v)); }
    static u64 defv() { return canon_fold(7, 99); }
    static int tag() { return 225; }
};
OVec Val<OVec>::make(int v) {
    OVec t;
    t.reserve(4);
    for (int i = 0; i < v % 4; ++i) {
        if (i == 1) t.push_back(OTree(make(v / 3)));
        else if (i == 2) t.push_back(OTree(Val<OPair>::make(v / 4)));
        else if (v & 8) t.push_back(OTree(TNone(v, 0)));
        else t.push_back(OTree(TLeaf(v + i, 0)));
    }
    return t;
}
}
namespace {
struct OTreeCfg : CfgDefaults {
    typedef OTree V;
    typedef TL<TLeaf, boost::recursive_wrapper<OPair>, TNone, boost::recursive_wrapper<OVec> > alts;
    enum { tags = P10 | P14, exact = 0, plain = 0, stream = 0, rec = 1 };
    template <class W> static bool nest(W& w, const Op& op, int a, int b) {
        return Nest<W, OVec, 3, OTreeL, VecKids<OVec, OTree> >::run(w, op, a, b);
    }
    static const char* name() { return "tree_over"; }
};
SIM_CFG(OTreeCfg)
}
