#include "tree.h"
using namespace sim;
// Recursion through recursive_wrapper members of an alternative that itself lies in the variant.
namespace {
struct Pair2;
typedef boost::variant<El<1>, Pair2> Ex;
struct Pair2 {
    El<3> op;
    boost::recursive_wrapper<Ex> l, r;
    Pair2();
    Pair2(int o, const Ex& a, const Ex& b);
    friend bool operator==(const Pair2& x, const Pair2& y);
    friend bool operator<(const Pair2& x, const Pair2& y);
    friend std::size_t hash_value(const Pair2& x);
    template <class C, class T> friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& os, const Pair2& x) {
        return os << C('(') << x.op << x.l.get() << *x.r.get_pointer() << C(')');
    }
};
Pair2::Pair2() : l(Ex(El<1>())), r() { Ex e; r = e; }
Pair2::Pair2(int o, const Ex& a, const Ex& b) : op(o, 0), l(a), r(Ex(b)) {}
bool operator==(const Pair2& x, const Pair2& y) { return x.op == y.op && x.l.get() == y.l.get() && x.r.get() == y.r.get(); }
bool operator<(const Pair2& x, const Pair2& y) {
    if (x.op < y.op) return true;
    if (y.op < x.op) return false;
    if (x.l.get() < y.l.get()) return true;
    if (y.l.get() < x.l.get()) return false;
    return x.r.get() < *y.r.get_pointer();
}
std::size_t hash_value(const Pair2& x) { return hash_value(x.op) * 31 + hash_value(x.l.get()) * 7 + hash_value(*x.r.get_pointer()); }
typedef TL<El<1>, Pair2> ExL;
}
namespace sim {
template <> struct Val<Pair2> : ValTree<Pair2> {
    static u64 canon(const Pair2& b) {
        CanonV<Ex, ExL> c;
        u64 h = Val<El<3> >::canon(b.op);
        h = canon_fold(h, boost::apply_visitor(c, b.l.get()));
        return canon_fold(h, boost::apply_visitor(c, *b.r.get_pointer()));
    }
    static Pair2 make(int v) {
        if (v < 6) return Pair2(v, Ex(El<1>(v, 0)), Ex(El<1>(v + 1, 0)));
        return Pair2(v, Ex(make(v / 3)), v % 2 ? Ex(El<1>(v, 0)) : Ex(make(v / 4)));
    }
    static void set(Pair2& x, int v) {
        Pair2 t(make(v));
        if (v & 1) { boost::recursive_wrapper<Ex> k(t.l.get()); swap(x.l, k); x.r.swap(t.r); }
        else if (v & 2) { x.l.swap(t.l); x.r = t.r; }
        else { swap(t.r, x.r); x.l = t.l.get(); }
        x.op.v = v;
    }
    static u64 canon_of(int v) { return canon(make(v)); }
    static u64 defv() { return 0; }
    static int tag() { return 226; }
};
}
namespace {
struct PairKids {
    static const bool grow = false;
    static int n(Pair2&) { return 2; }
    static Ex& at(Pair2& t, int i) { return i ? t.r.get() : *t.l.get_pointer(); }
    static void push(Pair2&, const Ex&) {}
    static void pop(Pair2&) {}
    static u64 fold(const u64* c, int, Pair2& t) { u64 h = Val<El<3> >::canon(t.op); return canon_fold(canon_fold(h, c[0]), c[1]); }
};
struct MWrapCfg : CfgDefaults {
    typedef Ex V;
    typedef TL<El<1>, Pair2> alts;
    enum { tags = P10, exact = 0, plain = 0, moves = 0, rec = 1, wide = 1 };
    template <class W> static bool nest(W& w, const Op& op, int a, int b) { return Nest<W, Pair2, 1, ExL, PairKids>::run(w, op, a, b); }
    static const char* name() { return "member_wrappers"; }
};
SIM_CFG(MWrapCfg)
}
