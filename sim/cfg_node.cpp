#include "tree.h"
using namespace sim;
// A struct that holds the variant it is an alternative of, through recursive_wrapper.
namespace {
struct Bin;
typedef boost::variant<El<1>, boost::recursive_wrapper<Bin> > Expr;
struct Bin {
    El<3> op;
    Expr l, r;
    Bin(int o, const Expr& a, const Expr& b) : op(o, 0), l(a), r(b) {}
    Bin() {}
    friend bool operator==(const Bin& x, const Bin& y) { return x.op == y.op && x.l == y.l && x.r == y.r; }
    friend bool operator<(const Bin& x, const Bin& y) {
        if (x.op < y.op) return true;
        if (y.op < x.op) return false;
        if (x.l < y.l) return true;
        if (y.l < x.l) return false;
        return x.r < y.r;
    }
    friend std::size_t hash_value(const Bin& x) { return hash_value(x.op) * 31 + hash_value(x.l) * 7 + hash_value(x.r); }
    template <class C, class T> friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& os, const Bin& x) {
        return os << C('(') << x.op << x.l << x.r << C(')');
    }
};
typedef TL<El<1>, Bin> ExprL;
}
namespace sim {
template <> struct Val<Bin> : ValTree<Bin> {
    static u64 canon(const Bin& b) {
        CanonV<Expr, ExprL> c;
        u64 h = Val<El<3> >::canon(b.op);
        h = canon_fold(h, boost::apply_visitor(c, b.l));
        return canon_fold(h, boost::apply_visitor(c, b.r));
    }
    static Bin make(int v) {
        if (v < 6) return Bin(v, Expr(El<1>(v, 0)), Expr(El<1>(v + 1, 0)));
        return Bin(v, Expr(make(v / 3)), v % 2 ? Expr(El<1>(v, 0)) : Expr(make(v / 4)));
    }
    static void set(Bin& x, int v) { Bin t(make(v)); x.l.swap(t.l); x.r.swap(t.r); x.op.v = v; }
    static u64 canon_of(int v) { return canon(make(v)); }
    static u64 defv() { return 0; }
    static int tag() { return 221; }
};
}
namespace {
struct BinKids {
    static const bool grow = false;
    static int n(Bin&) { return 2; }
    static Expr& at(Bin& t, int i) { return i ? t.r : t.l; }
    static void push(Bin&, const Expr&) {}
    static void pop(Bin&) {}
    static u64 fold(const u64* c, int, Bin& t) { u64 h = Val<El<3> >::canon(t.op); return canon_fold(canon_fold(h, c[0]), c[1]); }
};
struct ExprCfg : CfgDefaults {
    typedef Expr V;
    typedef TL<El<1>, boost::recursive_wrapper<Bin> > alts;
    enum { tags = P10, exact = 0, plain = 0, moves = 0, rec = 1, wide = 1 };
    template <class W> static bool nest(W& w, const Op& op, int a, int b) { return Nest<W, Bin, 1, ExprL, BinKids>::run(w, op, a, b); }
    static const char* name() { return "expression"; }
};
SIM_CFG(ExprCfg)
}
