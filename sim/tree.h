// Recursive variants: values are trees; the abstract value is a structural hash, every walk checks every node.
#ifndef SIM_TREE_H
#define SIM_TREE_H
#include "world.h"
#include <map>

namespace sim {

template <class V, class L> struct CanonV : boost::static_visitor<u64> {
    template <class T> u64 operator()(const T& x) const { return mix(IndexOf<T, L>::value + 1, Val<T>::canon(x)); }
};
inline u64 canon_fold(u64 h, u64 c) { return mix(h, c); }

// ---------------------------------------------------------------- nested operations on the children of one alternative
// K: static int n(T&), static V& at(T&, int), static const bool grow; static void push(T&, const V&), pop(T&), static u64 fold(const u64*, int, T&)
template <class W, class T, int VI, class VL, class K> struct Nest {
    typedef typename W::V V;
    static u64 cv(const V& v) { CanonV<V, VL> c; return boost::apply_visitor(c, v); }
    static bool run(W& w, const Op& op, int a, int b) {
        if (!w.s.m[a].ex || !w.s.m[b].ex || w.s.m[a].alt != VI) return false;
        int mode = w.op_mode(op, 6);
        static const char* const nm[6] = {" push copy", " pop to", " replace by own child", " assign child", " swap child", " move into child"};
        T& t = boost::relaxed_get<T>(w.s.at(a));
        int n = K::n(t), k = 0;
        if (n > 12) return false;
        if (mode != 0 && n == 0) return false;
        if ((mode == 0 || mode == 1) && !K::grow) mode = 3;
        if (a == b && mode != 0 && mode != 2) return false;
        u64 before[16];
        int kalt = 0;
        u64 kval = 0;
        {
            Quiet q;
            u64 wk = G.walk;
            G.walk = 0;
            for (int i = 0; i < n; ++i) before[i] = cv(K::at(t, i));
            u64 sz = G.walk;
            G.walk = 0;
            u64 bc = cv(w.s.at(b)); (void)bc;
            sz += G.walk;
            if (sz > 60) { G.walk = wk; return false; }
            if (n) {
                k = mode == 1 ? n - 1 : op.c % n;
                Observer<VL> ob;
                Obs o = boost::apply_visitor(ob, static_cast<const V&>(K::at(t, k)));
                kalt = o.alt; kval = o.canon;
            }
            G.walk = wk;
        }
        w.begin(op, nm[mode]);
        probe(PR_NESTED);
        Model mb = w.s.m[b];
        u64 bcv = mix(mb.alt + 1, mb.val);
        V& va = w.s.at(a);
        V& vb = w.s.at(b);
        bool ok = true;
        const u32 tg = P10 | P05 | P01;
        u64 after[18];
        for (int i = 0; i < n; ++i) after[i] = before[i];
        int an = n;
        switch (mode) {
        case 0:
            ok = attempt(op, tg, [&] { K::push(boost::get<T>(va), vb); });
            after[an++] = bcv;
            break;
        case 1:
            ok = attempt(op, tg, [&] { T& x = boost::get<T>(va); V tmp(std::move(K::at(x, k))); K::pop(x); vb = std::move(tmp); });
            --an;
            if (ok) w.s.al[b].add(kalt, kval);
            else { w.s.allow_failed_assign(b, kalt, false); w.s.m[b].heap_ok = true; }
            break;
        case 2:
            if (op.val & 1) ok = attempt(op, tg, [&] { V tmp(K::at(boost::get<T>(va), k)); va = tmp; });
            else if (op.val & 2) ok = attempt(op, tg, [&] { V tmp(K::at(boost::get<T>(va), k)); va.swap(tmp); });
            else ok = attempt(op, tg, [&] { V tmp(K::at(boost::get<T>(va), k)); va = std::move(tmp); });
            if (ok) w.s.al[a].add(kalt, kval);
            else { w.s.al[a].add_any(VI); w.s.al[a].add_any(kalt); if (w.s.has_fb) w.s.allow_fallback(a); w.s.m[a].heap_ok = true; }
            break;
        case 3:
            ok = attempt(op, tg, [&] { K::at(boost::get<T>(va), k) = vb; });
            after[k] = bcv;
            break;
        case 4:
            ok = attempt(op, tg, [&] { K::at(boost::get<T>(va), k).swap(vb); });
            after[k] = bcv;
            if (ok) w.s.al[b].add(kalt, kval);
            else { w.s.al[b].add_any(mb.alt); w.s.al[b].add_any(kalt); if (w.s.has_fb) w.s.allow_fallback(b); w.s.m[b].heap_ok = true; }
            break;
        default:
            ok = attempt(op, tg, [&] { K::at(boost::get<T>(va), k) = std::move(vb); });
            after[k] = bcv;
            w.s.allow_moved_from(b, mb.alt, mb.val);
            if (!w.info(mb.alt).simple || w.info(mb.alt).wrapper) w.s.al[b].add_any(mb.alt);
            break;
        }
        if (mode != 2) {
            if (ok) {
                Quiet q;
                u64 wk = G.walk;
                u64 c = K::fold(after, an, boost::relaxed_get<T>(va));
                G.walk = wk;
                w.s.al[a].add(VI, c);
            } else w.s.al[a].add_any(VI);
        }
        w.sign(op, ok, kalt, mb.alt, n > 3, mb.heap);
        w.check(ok, P10 | P05);
        return true;
    }
};
template <class T, class V> struct VecKids {
    static const bool grow = true;
    static int n(T& t) { return static_cast<int>(t.size()); }
    static V& at(T& t, int i) { return t[static_cast<std::size_t>(i)]; }
    static void push(T& t, const V& v) { t.push_back(v); }
    static void pop(T& t) { t.pop_back(); }
    static u64 fold(const u64* c, int n, T&) { u64 h = 99; for (int i = 0; i < n; ++i) h = canon_fold(h, c[i]); return h; }
};
template <class T> struct ValTree {
    static const bool simple = false, strong = false, pod = false, fp = false;
    static u64 moved() { return 0; }
};
} // namespace sim
#endif
