#include "tree.h"
using namespace sim;
typedef El<1> Leaf;
typedef boost::make_recursive_variant<Leaf, std::vector<boost::recursive_variant_>, El<2, F_NTMOVE> >::type Tree;
typedef std::vector<Tree> TreeVec;
namespace sim {
typedef TL<Leaf, TreeVec, El<2, F_NTMOVE> > TreeL;
template <> struct Val<TreeVec> : ValTree<TreeVec> {
    static u64 canon(const TreeVec& v) {
        u64 h = 99;
        CanonV<Tree, TreeL> c;
        for (std::size_t i = 0; i < v.size(); ++i) h = canon_fold(h, boost::apply_visitor(c, v[i]));
        return h;
    }
    static TreeVec make(int v) {
        TreeVec t;
        t.reserve(4);
        for (int i = 0; i < v % 4; ++i) {
            if (i == 1) t.push_back(Tree(make(v / 3)));
            else if (i == 2) t.push_back(Tree(El<2, F_NTMOVE>(v, 0)));
            else t.push_back(Tree(Leaf(v + i, 0)));
        }
        return t;
    }
    static void set(TreeVec& x, int v) { TreeVec t(make(v)); x.swap(t); }
    static u64 canon_of(int v) { return canon(make(v)); }
    static u64 defv() { return 99; }
    static int tag() { return 220; }
};
}
namespace {
struct TreeCfg : CfgDefaults {
    typedef Tree V;
    typedef TL<Leaf, boost::recursive_wrapper<TreeVec>, El<2, F_NTMOVE> > alts;
    enum { tags = P10, exact = 0, plain = 0, stream = 0, rec = 1 };
    template <class W> static bool nest(W& w, const Op& op, int a, int b) {
        return Nest<W, TreeVec, 1, TreeL, VecKids<TreeVec, Tree> >::run(w, op, a, b);
    }
    static const char* name() { return "tree_vector"; }
};
SIM_CFG(TreeCfg)
}
