#include "world.h"
using namespace sim;
typedef El<1> NA; typedef El<2, F_NTMOVE> NB; typedef El<3> NC; typedef El<4, F_NTDEF> ND;
typedef boost::variant<NA, NB> Inner;
typedef boost::variant<boost::blank, NA> Inner2;
namespace sim {
template <class V, class L, int TAG> struct ValVariant {
    static const bool simple = false, strong = false, pod = false, fp = false;
    struct Mk { V* v; int val; template <class T, int I> void operator()() { *v = V(Val<T>::make(val)); } };
    static u64 canon(const V& x) {
        int w = x.which();
        if (w < 0 || w >= L::size) { violate(P01 | G.cur_tags, "which-out-of-range", "which() of a nested variant is out of range while %s", G.where); return 0; }
        Observer<L> ob;
        Obs o = boost::apply_visitor(ob, x);
        if (o.alt != w) violate(P01 | P07 | G.cur_tags, "which-vs-visit", "which() and content of a nested variant disagree while %s", G.where);
        return mix(o.alt + 1, o.canon);
    }
    static V make(int v) {
        Quiet q;
        V r((Val<typename At<0, L>::type>::make(v)));
        Mk fn = {&r, v};
        with_type<L>(v % L::size, fn);
        return r;
    }
    static void set(V& x, int v) { Quiet q; x = make(v); }
    struct Cn { int val; u64 c; template <class T, int I> void operator()() { c = mix(I + 1, Val<T>::canon_of(val)); } };
    static u64 canon_of(int v) { Cn fn = {v, 0}; with_type<L>(v % L::size, fn); return fn.c; }
    static u64 moved() { return 0; }
    static u64 defv() { return mix(1, Val<typename At<0, L>::type>::defv()); }
    static int tag() { return TAG; }
};
template <> struct Val<Inner> : ValVariant<Inner, TL<NA, NB>, 220> {};
template <> struct Val<Inner2> : ValVariant<Inner2, TL<boost::blank, NA>, 221> {};
}
namespace {
// Variants as alternatives of variants: the inner one is a value like any other, with its own recovery states.
struct Nest : CfgDefaults {
    typedef boost::variant<Inner, NC, Inner2> V;
    typedef TL<Inner, NC, Inner2> alts;
    enum { exact = 0, plain = 0, moves = 0, wide = 0, stream = 0 };
    static const char* name() { return "nested"; }
};
SIM_CFG(Nest)
struct NestFb : CfgDefaults {
    typedef boost::variant<ND, Inner> V;
    typedef TL<ND, Inner> alts;
    enum { exact = 0, plain = 0, moves = 0 };
    static const char* name() { return "nested_fallback"; }
};
SIM_CFG(NestFb)
}
