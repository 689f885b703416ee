// Operation groups beyond the core: conversion, visitation, value access, comparison, hashing, streaming, containers.
#ifndef SIM_OPS_H
#define SIM_OPS_H
#include <functional>
#include <sstream>
#include <set>
#if SIM_GROUPS & (GR_VISIT | GR_MULTI)
#include <boost/variant/multivisitors.hpp>
#endif
#if SIM_GROUPS & GR_GET
#include <boost/variant/polymorphic_get.hpp>
#endif

namespace sim {

// ---------------------------------------------------------------- recording visitors
struct VArg { int alt; const void* addr; int cat; u64 canon; };
struct VRec {
    int calls, n;
    VArg a[6];
    VRec() : calls(0), n(0) {}
};
template <class L> struct RecBase {
    VRec* r;
    template <class X> int one(X&& x) const {
        typedef typename std::remove_reference<X>::type XT;
        typedef typename std::remove_cv<XT>::type T;
        if (r->n < 6) {
            VArg& a = r->a[r->n++];
            a.alt = IndexOf<T, L>::value;
            a.addr = static_cast<const void*>(std::addressof(x));
            a.cat = (std::is_lvalue_reference<X>::value ? 0 : 2) + (std::is_const<XT>::value ? 1 : 0);
            Quiet q;
            u64 w = G.walk;
            a.canon = Val<T>::canon(x);
            G.walk = w;
        }
        return 0;
    }
    template <class... X> void all(X&&... x) const {
        ++r->calls;
        r->n = 0;
        int dummy[] = {0, one(std::forward<X>(x))...};
        (void)dummy;
        fault_point(K_VISIT);
    }
};
// const call operator, returns by value
template <class L> struct VisC : RecBase<L>, boost::static_visitor<u64> {
    u64 token;
    template <class... X> u64 operator()(X&&... x) const { this->all(std::forward<X>(x)...); return token; }
};
// non-const call operator, returns a reference
template <class L> struct VisM : RecBase<L>, boost::static_visitor<u64&> {
    u64 token;
    template <class... X> u64& operator()(X&&... x) { this->all(std::forward<X>(x)...); return token; }
};
// returns nothing
template <class L> struct VisV : RecBase<L>, boost::static_visitor<> {
    template <class... X> void operator()(X&&... x) const { this->all(std::forward<X>(x)...); }
};
// no result_type: needs C++14 return type deduction
template <class L> struct VisG : RecBase<L> {
    u64 token;
    template <class... X> u64 operator()(X&&... x) const { this->all(std::forward<X>(x)...); return token; }
};
template <class L> struct VisGM : RecBase<L> {
    u64 token;
    template <class... X> u64& operator()(X&&... x) { this->all(std::forward<X>(x)...); return token; }
};
// moves the content out of an rvalue
template <class L> struct VisTake : boost::static_visitor<u64> {
    VRec* r;
    template <class X> u64 operator()(X&& x) const {
        typedef typename std::remove_cv<typename std::remove_reference<X>::type>::type T;
        ++r->calls;
        r->a[0].cat = (std::is_lvalue_reference<X>::value ? 0 : 2) + (std::is_const<typename std::remove_reference<X>::type>::value ? 1 : 0);
        r->a[0].alt = IndexOf<T, L>::value;
        T local(std::forward<X>(x));
        Quiet q;
        u64 w = G.walk;
        u64 c = Val<T>::canon(local);
        G.walk = w;
        return c;
    }
};
template <class L, int I> struct PtrVis {
    typedef typename At<I, L>::type T;
    static u64 fn(T& x) { G.op->vseen = std::addressof(x); fault_point(K_VISIT); return 4242; }
    static u64 cfn(const T& x) { G.op->vseen = std::addressof(x); fault_point(K_VISIT); return 4243; }
};

// ---------------------------------------------------------------- streams that fail on command
template <class C> class FaultyBuf : public std::basic_streambuf<C> {
    typedef std::char_traits<C> Tr;
    typedef typename Tr::int_type int_type;
public:
    C out[256];
    int n, budget, how;     // after `budget` characters: how 0 = EOF, 1 = throw; how 2 = never fails
    int hits;
    FaultyBuf(int b, int h) : n(0), budget(b), how(h), hits(0) {}
protected:
    int_type overflow(int_type c) {
        if (how != 2 && n >= budget) {
            ++hits;
            if (how == 1) throw Boom(0);
            return Tr::eof();
        }
        if (n < 256) out[n] = Tr::to_char_type(c);
        ++n;
        return Tr::not_eof(c);
    }
    std::streamsize xsputn(const C* p, std::streamsize k) {
        for (std::streamsize i = 0; i < k; ++i)
            if (Tr::eq_int_type(overflow(Tr::to_int_type(p[i])), Tr::eof())) return i;
        return k;
    }
};
struct StreamOutcome {
    int n, state, threw, hits, flags, width, prec, fill, word;
    u64 chars;
    bool operator==(const StreamOutcome& o) const {
        return n == o.n && state == o.state && threw == o.threw && flags == o.flags && width == o.width && chars == o.chars && hits == o.hits && prec == o.prec && fill == o.fill && word == o.word;
    }
};

// ---------------------------------------------------------------- per-slot consistency of every way to look at it
template <class V, class L> struct GetAll {
    V* v; int alt; const void* addr; const char* bad;
    template <class T, int I> void operator()() {
        const V* cv = v;
        bool want = I == alt;
        const void* p[6] = {boost::get<T>(v), boost::get<T>(cv), boost::strict_get<T>(v), boost::strict_get<T>(cv),
                            boost::relaxed_get<T>(v), boost::relaxed_get<T>(cv)};
        for (int k = 0; k < 6; ++k) {
            if (want && p[k] != addr) bad = p[k] ? "returned another object" : "returned null for the held type";
            if (!want && p[k]) bad = "returned non-null for a type that is not held";
        }
    }
};
template <class L, class Fn, int I, bool End> struct ForTypes {
    static void go(Fn& fn) { fn.template operator()<typename At<I, L>::type, I>(); ForTypes<L, Fn, I + 1, I + 1 == L::size>::go(fn); }
};
template <class L, class Fn, int I> struct ForTypes<L, Fn, I, true> { static void go(Fn&) {} };

template <class Cfg> void World<Cfg>::deep_checks() {
#if SIM_GROUPS & GR_GET
    u32 save = G.cur_tags;
    G.cur_tags |= P08;
    for (int i = 0; i < NV; ++i) {
        if (!s.m[i].ex) continue;
        GetAll<V, L> fn = {&s.at(i), s.m[i].alt, s.m[i].addr, 0};
        ForTypes<L, GetAll<V, L>, 0, L::size == 0>::go(fn);
        if (fn.bad) violate(P08 | P01, "get-disagrees", "get<T>(pointer) %s after %s", fn.bad, what);
    }
    G.cur_tags = save;
#endif
}

// ---------------------------------------------------------------- conversions
template <class W, class Cfg, bool On> struct ConvOps {
    static bool run(W&, const Op&, int, int) { return false; }
};
template <class W, class Cfg> struct ConvOps<W, Cfg, true> {
    typedef typename Cfg::V V;
    struct FCtor {
        W& w; const Op& op; int i; bool asg;
        template <class T, int I> void operator()() {
            T tmp(Val<T>::make(op.val));
            u64 c = w.canon_quiet(tmp);
            typedef typename W::FV FV;
            if (!asg) {
                void* p = w.f.raw(i);
                bool ok = attempt(op, P05, [&] { new (p) FV(std::move(tmp)); });
                Model& m = w.f.m[i];
                if (ok) { m.ex = true; m.alt = I; m.val = c; m.heap_ok = false; m.heap = false; m.survivor = false; w.f.al[i].add(I, c); }
                else w.f.fill(i);
            } else {
                FV& v = w.f.at(i);
                bool ok = attempt(op, P05 | P03, [&] { v = std::move(tmp); });
                if (ok) w.f.al[i].add(I, c);
                else { w.f.allow_failed_assign(i, I, false); w.f.m[i].heap_ok = true; }
            }
        }
    };
    static bool run(W& w, const Op& op, int a, int) {
        int j = op.b % NF;
        switch (op.code) {
        case O_F_CTOR: case O_F_ASG: {
            j = op.a % NF;
            bool asg = op.code == O_F_ASG;
            if (asg && !w.f.m[j].ex) return false;
            if (!asg) w.fkill(j);
            w.begin(op, "");
            FCtor fn = {w, op, j, asg};
            with_type<typename W::FL>(op.alt % W::SF::nalts, fn);
            w.check(G.op->fired == 0, P05);
            return true;
        }
        case O_CTOR_CONV: case O_ASG_CONV: {
            if (!w.f.m[j].ex) return false;
            bool asg = op.code == O_ASG_CONV;
            if (asg && !w.s.m[a].ex) return false;
            if (!asg) w.kill(a);
            static const char* const nm[3] = {" const&", " &", " &&"};
            int mode = w.op_mode(op, 3);
            w.begin(op, nm[mode]);
            probe(PR_CONVERT);
            Model src = w.f.m[j];
            typename W::FV& r = w.f.at(j);
            const typename W::FV& cr = r;
            bool ok;
            int alt = Cfg::fmap(src.alt);
            u32 t = P05 | (mode == 2 ? P06 : 0u);
            if (!asg) {
                void* p = w.s.raw(a);
                if (mode == 0) ok = attempt(op, t, [&] { new (p) V(cr); });
                else if (mode == 1) ok = attempt(op, t, [&] { new (p) V(r); });
                else ok = attempt(op, t, [&] { new (p) V(std::move(r)); });
                if (mode == 2 && G.op->ncopy && !Cfg::copyonly)
                    violate(P06, "rvalue-copied", "%s copied although it was given an rvalue", w.what);
                w.sign(op, ok, alt, src.alt, false, src.heap);
                w.born(a, ok, alt, src.val);
            } else {
                V& v = w.s.at(a);
                if (mode == 0) ok = attempt(op, t | P03, [&] { w.same(&(v = cr), &v); });
                else if (mode == 1) ok = attempt(op, t | P03, [&] { w.same(&(v = r), &v); });
                else ok = attempt(op, t | P03, [&] { w.same(&(v = std::move(r)), &v); });
                if (mode == 2) w.check_no_nt_copies();
                w.after_asg(op, a, ok, alt, src.val, src.heap, W::CONVERTED);
            }
            if (mode == 2) w.f.allow_moved_from(j, src.alt, src.val);
            w.check(ok, t);
            return true;
        }
        default: return false;
        }
    }
};
template <class W, class Cfg, bool On> struct SrcOps {
    static bool run(W&, const Op&, int) { return false; }
};
template <class W, class Cfg> struct SrcOps<W, Cfg, true> {
    typedef typename Cfg::V V;
    static bool run(W& w, const Op& op, int a) {
        typedef typename At<Cfg::src_alt, typename W::L>::type T;
        Src<T::id> src(op.val);
        const Src<T::id> csrc(op.val);
        bool asg = op.code == O_ASG_SRC, ok;
        if (asg && !w.s.m[a].ex) return false;
        if (!asg) w.kill(a);
        w.begin(op, "");
        u64 c = static_cast<u64>(static_cast<std::int64_t>(op.val));
        int mode = w.op_mode(op, 3);
        if (!asg) {
            void* p = w.s.raw(a);
            if (mode == 0) ok = attempt(op, P05, [&] { new (p) V(csrc); });
            else if (mode == 1) ok = attempt(op, P05, [&] { new (p) V(src); });
            else ok = attempt(op, P05, [&] { new (p) V(std::move(src)); });
            w.born(a, ok, Cfg::src_alt, c);
        } else {
            V& v = w.s.at(a);
            if (mode == 0) ok = attempt(op, P05 | P03, [&] { w.same(&(v = csrc), &v); });
            else if (mode == 1) ok = attempt(op, P05 | P03, [&] { w.same(&(v = src), &v); });
            else ok = attempt(op, P05 | P03, [&] { w.same(&(v = std::move(src)), &v); });
            Model before = w.s.m[a];
            w.after_asg(op, a, ok, Cfg::src_alt, c, false, W::CONVERTED);
            // the value is built first, then put in place: a failure of either step is a failed assignment
            if (!ok && before.alt == Cfg::src_alt) { w.s.al[a].n = 0; w.s.allow_failed_assign(a, Cfg::src_alt, false); }
        }
        w.check(ok, P05);
        return true;
    }
};

// ---------------------------------------------------------------- visitation
template <class W, class Cfg> struct VisitOps {
    typedef typename Cfg::V V;
    typedef typename W::L L;

    static void expect(W& w, const VRec& r, bool ok, int n, const int* slot, const int* cat, bool temp) {
        if (r.calls != 1) {
            violate(P07, "visitor-call-count", "%s ran the visitor %d times", w.what, r.calls);
            return;
        }
        if (r.n != n) { violate(P07, "visitor-arity", "%s passed %d arguments", w.what, r.n); return; }
        for (int k = 0; k < n; ++k) {
            const Model& m = w.s.m[slot[k]];
            if (r.a[k].alt != m.alt || r.a[k].canon != m.val)
                violate(P07, "visitor-wrong-content", "%s: argument %d is alternative %d value %lld, the variant holds %d value %lld", w.what, k,
                        r.a[k].alt, (long long)r.a[k].canon, m.alt, (long long)m.val);
            else if (r.a[k].addr != m.addr && !(temp && cat[k] >= 2))
                violate(P07, "visitor-not-content", "%s: argument %d is not the content itself", w.what, k);
            else if (r.a[k].cat != cat[k])
                violate(P07, "visitor-wrong-category", "%s: argument %d has value category/constness %d, expected %d", w.what, k, r.a[k].cat, cat[k]);
        }
        (void)ok;
    }

    static bool unary(W& w, const Op& op, int a) {
#if SIM_GROUPS & GR_VISIT
        if (!w.s.m[a].ex) return false;
        static const int NM = 17;
        int mode = w.op_mode(op, NM);
        char ex[32];
        std::snprintf(ex, sizeof ex, " form %d", mode);
        w.begin(op, ex);
        V& v = w.s.at(a);
        const V& cv = v;
        VRec r;
        u64 token = mix(op.val, 77), got = token;
        bool ok;
        int cat = 0;
        bool done = false;
        if (mode == 12 || mode == 13) { done = ptr_visit(w, op, a, mode == 13); return done; }
        if (mode == 14) return take(w, op, a, Bool<Cfg::copyable || 1>());
        VisC<L> vc; vc.r = &r; vc.token = token;
        const VisC<L>& cvc = vc;
        VisM<L> vm; vm.r = &r; vm.token = token;
        VisV<L> vv; vv.r = &r;
        const void* gotref = &vm.token;
        switch (mode) {
        case 0: ok = attempt(op, P07, [&] { got = boost::apply_visitor(cvc, v); }); break;
        case 1: ok = attempt(op, P07, [&] { u64& x = boost::apply_visitor(vm, v); got = x; gotref = &x; }); break;
        case 2: cat = 1; ok = attempt(op, P07, [&] { got = boost::apply_visitor(cvc, cv); }); break;
        case 3: cat = 2; ok = attempt(op, P07, [&] { got = boost::apply_visitor(cvc, std::move(v)); }); break;
        case 4: ok = attempt(op, P07, [&] { got = boost::apply_visitor(vc)(v); }); break;
        case 5: cat = 1; ok = attempt(op, P07, [&] { u64& x = boost::apply_visitor(vm)(cv); got = x; gotref = &x; }); break;
        case 6: ok = attempt(op, P07, [&] { u64& x = v.apply_visitor(vm); got = x; gotref = &x; }); break;
        case 7: cat = 2; ok = attempt(op, P07, [&] { got = std::move(v).apply_visitor(cvc); }); break;
        case 8: cat = 3; ok = attempt(op, P07, [&] { got = boost::apply_visitor(cvc, static_cast<const V&&>(v)); }); break;
        case 9: ok = attempt(op, P07, [&] { boost::apply_visitor(vv, v); }); break;
        case 10: cat = 1; ok = attempt(op, P07, [&] { boost::apply_visitor(VisV<L>(vv), cv); }); break;
        case 11: cat = 2; ok = attempt(op, P07, [&] { u64& x = boost::apply_visitor(vm, std::move(v)); got = x; gotref = &x; }); break;
#if __cplusplus >= 201402L
        case 15: { VisG<L> vg; vg.r = &r; vg.token = token;
            if (op.val & 1) { cat = 1; ok = attempt(op, P07, [&] { got = boost::apply_visitor(vg, cv); }); }
            else if (op.val & 2) { cat = 2; ok = attempt(op, P07, [&] { got = boost::apply_visitor(vg, std::move(v)); }); }
            else { const VisG<L>& cvg = vg; ok = attempt(op, P07, [&] { got = boost::apply_visitor(cvg, v); }); }
            break; }
        case 16: { VisGM<L> vg; vg.r = &r; vg.token = token; gotref = &vg.token;
            if (op.val & 1) { cat = 1; ok = attempt(op, P07, [&] { u64& x = boost::apply_visitor(vg)(cv); got = x; gotref = &x; }); }
            else if (op.val & 2) ok = attempt(op, P07, [&] { u64& x = boost::apply_visitor(vg, v); got = x; gotref = &x; });
            else { VisG<L> v2; v2.r = &r; v2.token = token; ok = attempt(op, P07, [&] { got = boost::apply_visitor(std::move(v2), v); }); }
            if (ok && gotref != &vg.token) violate(P07, "result-reference", "%s did not return the visitor's reference", w.what);
            gotref = &vm.token;
            break; }
#endif
        default: ok = attempt(op, P07, [&] { got = boost::apply_visitor(cvc, v); }); break;
        }
        finish_visit(w, op, ok, got, token, r);
        if (ok && gotref != &vm.token) violate(P07, "result-reference", "%s did not return the visitor's reference", w.what);
        int slot[1] = {a}, cats[1] = {cat};
        expect(w, r, ok, 1, slot, cats, false);
        w.sign(op, ok, w.s.m[a].alt, 0, w.s.m[a].heap, false);
        w.check(ok, P07);
        return true;
#else
        (void)w; (void)op; (void)a; return false;
#endif
    }
    static void finish_visit(W& w, const Op& op, bool ok, u64 got, u64 token, const VRec&) {
        if (!ok) probe(PR_VISIT_THROW);
        if (ok && got != token) violate(P07, "result-lost", "%s returned %llx, the visitor returned %llx", w.what, (unsigned long long)got, (unsigned long long)token);
        if (G.op->ncopy || G.op->nmove || G.op->allocs)
            if (op.code != O_VISITN) violate(P07 | (G.op->allocs ? P12 : 0u), "visit-copies", "%s copied, moved or allocated", w.what);
    }

    // A visitor that consumes an rvalue: the content it gets is the value; the variant keeps a valid value of the same alternative.
    static bool take(W& w, const Op& op, int a, std::true_type) {
        V& v = w.s.at(a);
        VRec r;
        VisTake<L> vt; vt.r = &r;
        u64 got = 0;
        Model m = w.s.m[a];
        bool ok = attempt(op, P07 | P06, [&] { got = boost::apply_visitor(vt, std::move(v)); });
        if (r.calls != 1) violate(P07, "visitor-call-count", "%s ran the visitor %d times", w.what, r.calls);
        else if (r.a[0].cat != 2) violate(P07 | P06, "visitor-wrong-category", "%s did not pass an rvalue", w.what);
        else if (ok && (got != m.val || r.a[0].alt != m.alt)) violate(P07, "visitor-wrong-content", "%s passed other content", w.what);
        if (G.op->ncopy && !Cfg::copyonly) violate(P06 | P07, "rvalue-copied", "%s copied although it was given an rvalue", w.what);
        w.s.allow_moved_from(a, m.alt, m.val);
        w.check(ok, P07);
        return true;
    }

    struct PtrFn {
        W& w; const Op& op; int a; bool cst;
        template <class T, int I> void operator()() {
            typedef PtrVis<L, I> PV;
            V& v = w.s.at(a);
            const V& cv = v;
            G.op->vseen = 0;
            u64 got = 0;
            bool bad = false, ok;
            if (!cst) ok = attempt(op, P07, [&] { try { got = boost::apply_visitor(boost::visitor_ptr(&PV::fn), v); } catch (const boost::bad_visit& e) { bad = true; const char* m = e.what(); if (!m || !*m) violate(P07, "exception-unnamed", "%s threw an exception without a description", w.what); } });
            else ok = attempt(op, P07, [&] { try { got = boost::apply_visitor(boost::visitor_ptr(&PV::cfn), cv); } catch (const boost::bad_visit&) { bad = true; } });
            bool match = w.s.m[a].alt == I;
            if (match && !bad && G.op->cnt[K_VISIT] != 1) violate(P07, "visitor-call-count", "%s called the function %u times", w.what, G.op->cnt[K_VISIT]);
            else if (match && (bad || G.op->vseen != w.s.m[a].addr)) violate(P07, "visitor-ptr", "%s: function for the held type was not called with the content", w.what);
            else if (!match && (!bad || G.op->vseen) && ok) violate(P07, "visitor-ptr-mismatch", "%s: no bad_visit for a type that is not held", w.what);
            else if (match && ok && got != (cst ? 4243u : 4242u)) violate(P07, "result-lost", "%s lost the result", w.what);
            if (bad) probe(PR_BADVISIT);
            if (!ok) probe(PR_VISIT_THROW);
            w.check(ok, P07);
        }
    };
    static bool ptr_visit(W& w, const Op& op, int a, bool cst) {
        PtrFn fn = {w, op, a, cst};
        with_type<L>((op.val & 1) ? w.s.m[a].alt : op.alt % W::S::nalts, fn);
        return true;
    }

    // Receives what a visitation returned: its value, and whether it was the visitor's own reference.
    struct Got {
        u64 v; const void* ref;
        explicit Got(u64 t) : v(t), ref(0) {}
        void operator=(u64& x) { v = x; ref = &x; }
        void operator=(const u64& x) { v = x; ref = 0; }
    };
    // category k: 0 lvalue, 1 const lvalue, 2 rvalue
    template <class Vis> struct Bin {
        static void go(Vis& vis, int ca, int cb, V& x, V& y, Got& got) {
            const V& cx = x; const V& cy = y;
            switch (ca * 3 + cb) {
            case 0: got = boost::apply_visitor(vis, x, y); break;
            case 1: got = boost::apply_visitor(vis, x, cy); break;
            case 2: got = boost::apply_visitor(vis, x, std::move(y)); break;
            case 3: got = boost::apply_visitor(vis, cx, y); break;
            case 4: got = boost::apply_visitor(vis, cx, cy); break;
            case 5: got = boost::apply_visitor(vis, cx, std::move(y)); break;
            case 6: got = boost::apply_visitor(vis, std::move(x), y); break;
            case 7: got = boost::apply_visitor(vis, std::move(x), cy); break;
            default: got = boost::apply_visitor(vis, std::move(x), std::move(y)); break;
            }
        }
    };
    static bool binary(W& w, const Op& op, int a, int b, std::true_type) {
#if SIM_GROUPS & GR_VISIT2
        if (!w.s.m[a].ex || !w.s.m[b].ex) return false;
        int mode = w.op_mode(op, 45), form = mode / 9, ca = mode % 9 / 3, cb = mode % 3;
        char ex[40];
        std::snprintf(ex, sizeof ex, " form %d cat %d %d", form, ca, cb);
        w.begin(op, ex);
        V& x = w.s.at(a);
        V& y = w.s.at(b);
        VRec r;
        u64 token = mix(op.val, 78);
        Got got(token);
        const void* want = 0;   // the object a reference-returning visitor returns
        bool ok;
        VisC<L> vc; vc.r = &r; vc.token = token;
        VisM<L> vm; vm.r = &r; vm.token = token;
#if __cplusplus >= 201402L
        if (form == 3) {
            VisG<L> vg; vg.r = &r; vg.token = token;
            const VisG<L>& cvg = vg;
            ok = attempt(op, P07, [&] { Bin<const VisG<L> >::go(cvg, ca, cb, x, y, got); });
        } else if (form == 4) {
            VisGM<L> vg; vg.r = &r; vg.token = token; want = &vg.token;
            if (ca == 2 || cb == 2) ok = attempt(op, P07, [&] { Bin<VisGM<L> >::go(vg, ca, cb, x, y, got); });
            else { ca = cb = 0; ok = attempt(op, P07, [&] { got = boost::apply_visitor(vg)(x, y); }); }
        } else
#endif
        if (form == 0) { const VisC<L>& cvc = vc; ok = attempt(op, P07, [&] { Bin<const VisC<L> >::go(cvc, ca, cb, x, y, got); }); }
        else if (form == 1) want = &vm.token, ok = attempt(op, P07, [&] { Bin<VisM<L> >::go(vm, ca, cb, x, y, got); });
        else {
            const V& cx = x; const V& cy = y;
            if (ca == 2) ca = 0;
            if (cb == 2) cb = 0;
            if (ca && cb) want = &vm.token, ok = attempt(op, P07, [&] { got = boost::apply_visitor(vm)(cx, cy); });
            else if (ca) want = &vm.token, ok = attempt(op, P07, [&] { got = boost::apply_visitor(vm)(cx, y); });
            else if (cb) ok = attempt(op, P07, [&] { got = boost::apply_visitor(vc)(x, cy); });
            else ok = attempt(op, P07, [&] { got = boost::apply_visitor(vc)(x, y); });
        }
        finish_visit(w, op, ok, got.v, token, r);
        if (ok && want && got.ref != want) violate(P07, "result-reference", "%s did not return the visitor's reference", w.what);
        int slot[2] = {a, b}, cats[2] = {ca, cb};
        expect(w, r, ok, 2, slot, cats, false);
        w.sign(op, ok, w.s.m[a].alt, w.s.m[b].alt, w.s.m[a].heap, w.s.m[b].heap);
        w.check(ok, P07);
        return true;
#else
        (void)w; (void)op; (void)a; (void)b; return false;
#endif
    }
    static bool binary(W&, const Op&, int, int, std::false_type) { return false; }

    template <class Vis> static void multi_go3(Vis& vis, int pat, V** p, Got& got) {
        const V& c0 = *p[0]; const V& c1 = *p[1]; const V& c2 = *p[2];
        switch (pat) {
        case 0: got = boost::apply_visitor(vis, *p[0], *p[1], *p[2]); break;
        case 1: got = boost::apply_visitor(vis, c0, c1, c2); break;
        case 2: got = boost::apply_visitor(vis, c0, *p[1], std::move(*p[2])); break;
        default: got = boost::apply_visitor(vis, std::move(*p[0]), std::move(*p[1]), c2); break;
        }
    }
    template <class Vis> static void multi_go(Vis& vis, int n, int pat, V** p, Got& got) {
        const V& c0 = *p[0]; const V& c1 = *p[1]; const V& c2 = *p[2]; const V& c3 = *p[3]; const V& c4 = *p[4];
        (void)c3; (void)c4;
        switch (n * 4 + pat) {
        case 12: got = boost::apply_visitor(vis, *p[0], *p[1], *p[2]); break;
        case 13: got = boost::apply_visitor(vis, c0, c1, c2); break;
        case 14: got = boost::apply_visitor(vis, c0, *p[1], std::move(*p[2])); break;
        case 15: got = boost::apply_visitor(vis, std::move(*p[0]), std::move(*p[1]), c2); break;
        case 16: got = boost::apply_visitor(vis, *p[0], *p[1], *p[2], *p[3]); break;
        case 17: got = boost::apply_visitor(vis, c0, c1, c2, c3); break;
        case 18: got = boost::apply_visitor(vis, *p[0], c1, *p[2], c3); break;
        case 19: got = boost::apply_visitor(vis, c0, *p[1], c2, *p[3]); break;
        case 20: got = boost::apply_visitor(vis, *p[0], *p[1], *p[2], *p[3], *p[4]); break;
        case 21: got = boost::apply_visitor(vis, c0, c1, c2, c3, c4); break;
        case 22: got = boost::apply_visitor(vis, *p[0], c1, *p[2], c3, *p[4]); break;
        default: got = boost::apply_visitor(vis, c0, *p[1], c2, *p[3], c4); break;
        }
    }
    static bool multi(W& w, const Op& op, int a, std::true_type) {
#if SIM_GROUPS & GR_MULTI
        int slot[5];
        V* p[5];
        int mode = w.op_mode(op, 60), n = 3 + mode % 3, pat = mode / 3 % 4, form = mode / 12;   // form 0..4
        if ((form == 2 || form == 3) && n != 3) form -= 2;    // result type deduction is offered for three operands
        const int arr[5] = {a, op.b % NV, op.c % NV, op.val % NV, op.alt % NV};
        int cats[5] = {0, 0, 0, 0, 0};
        static const int pc[12][5] = {{0,0,0}, {1,1,1}, {1,0,2}, {2,2,1}, {0,0,0,0}, {1,1,1,1}, {0,1,0,1}, {1,0,1,0}, {0,0,0,0,0}, {1,1,1,1,1}, {0,1,0,1,0}, {1,0,1,0,1}};
        int base = -1;
        for (int i = 0; i < NV; ++i) if (w.s.m[i].ex) base = i;
        if (base < 0) return false;
        for (int k = 0; k < 5; ++k) { slot[k] = w.s.m[arr[k]].ex ? arr[k] : base; p[k] = &w.s.at(slot[k]); cats[k] = pc[(n - 3) * 4 + pat][k]; }
        bool rv = n == 3 && pat >= 2;
        if (rv && (slot[0] == slot[1] || slot[1] == slot[2] || slot[0] == slot[2])) { rv = false; pat = 1; cats[0] = cats[1] = cats[2] = 1; }
        char ex[40];
        std::snprintf(ex, sizeof ex, " arity %d form %d pattern %d", n, form, pat);
        w.begin(op, ex);
        VRec r;
        u64 token = mix(op.val, 79);
        Got got(token);
        const void* want = 0;
        bool ok;
        VisC<L> vc; vc.r = &r; vc.token = token;
        VisM<L> vm; vm.r = &r; vm.token = token;
#if __cplusplus >= 201402L
        if (form == 2) { VisG<L> vg; vg.r = &r; vg.token = token; const VisG<L>& cvg = vg; ok = attempt(op, P07, [&] { multi_go3(cvg, pat, p, got); }); }
        else if (form == 3) { VisGM<L> vg; vg.r = &r; vg.token = token; want = &vg.token; ok = attempt(op, P07, [&] { multi_go3(vg, pat, p, got); }); }
        else
#endif
        if (form == 0) { const VisC<L>& cvc = vc; ok = attempt(op, P07, [&] { multi_go(cvc, n, pat, p, got); }); }
        else if (form == 4 && n < 5 && !rv) {
            const V& c0 = *p[0]; const V& c1 = *p[1]; const V& c2 = *p[2];
            if (n == 3 && pat == 1) want = &vm.token, ok = attempt(op, P07, [&] { got = boost::apply_visitor(vm)(c0, c1, c2); });
            else { for (int k = 0; k < 5; ++k) cats[k] = 0;
                if (n == 3) ok = attempt(op, P07, [&] { got = boost::apply_visitor(vc)(*p[0], *p[1], *p[2]); });
                else ok = attempt(op, P07, [&] { got = boost::apply_visitor(vc)(*p[0], *p[1], *p[2], *p[3]); }); }
        }
        else want = &vm.token, ok = attempt(op, P07, [&] { multi_go(vm, n, pat, p, got); });
        if (!ok) probe(PR_VISIT_THROW);
        if (ok && got.v != token) violate(P07, "result-lost", "%s lost the result", w.what);
        if (ok && want && got.ref != want) violate(P07, "result-reference", "%s did not return the visitor's reference", w.what);
        if (!rv && (G.op->ncopy || G.op->nmove || G.op->allocs)) violate(P07, "visit-copies", "%s copied, moved or allocated", w.what);
        if (rv && G.op->ncopy && !Cfg::copyonly) violate(P07 | P06, "visit-copies", "%s copied an operand", w.what);
        if (ok || r.calls || !rv) expect(w, r, ok, n, slot, cats, true);
        if (rv) for (int k = 0; k < 3; ++k) if (cats[k] == 2) w.s.allow_moved_from(slot[k], w.s.m[slot[k]].alt, w.s.m[slot[k]].val);
        w.sign(op, ok, w.s.m[slot[0]].alt, w.s.m[slot[1]].alt, w.s.m[slot[2]].heap, w.s.m[slot[1]].heap);
        w.check(ok, P07);
        return true;
#else
        (void)w; (void)op; (void)a; return false;
#endif
    }
    static bool multi(W&, const Op&, int, std::false_type) { return false; }
};

// ---------------------------------------------------------------- value access
struct NotThere {};
// the documented exceptions are std::exceptions that say something
template <class W> void named(W& w, const std::exception& e) {
    const char* m = e.what();
    if (!m || !*m) violate(P08 | P07, "exception-unnamed", "%s threw an exception without a description", w.what);
}
template <class W, class Cfg> struct GetOps {
    typedef typename Cfg::V V;
    typedef typename W::L L;
    struct Fn {
        W& w; const Op& op; int a; int mode;
        template <class T, int I> void operator()() {
            V& v = w.s.at(a);
            const V& cv = v;
            Model m = w.s.m[a];
            bool held = m.alt == I, bad = false, took = false;
            const void* p = 0;
            u64 tv = 0;
            bool ok = attempt(op, P08, [&] {
                try {
                    switch (mode) {
                    case 0: p = boost::get<T>(&v); break;
                    case 1: p = boost::get<T>(&cv); break;
                    case 2: { T& r = boost::get<T>(v); p = std::addressof(r); break; }
                    case 3: { const T& r = boost::get<T>(cv); p = std::addressof(r); break; }
                    case 4: { T&& r = boost::get<T>(std::move(v)); p = std::addressof(r); break; }
                    case 5: p = boost::strict_get<T>(&v); break;
                    case 6: p = boost::strict_get<T>(&cv); break;
                    case 7: { T& r = boost::strict_get<T>(v); p = std::addressof(r); break; }
                    case 8: { const T& r = boost::strict_get<T>(cv); p = std::addressof(r); break; }
                    case 9: { T&& r = boost::strict_get<T>(std::move(v)); p = std::addressof(r); break; }
                    case 10: p = boost::relaxed_get<T>(&v); break;
                    case 11: p = boost::relaxed_get<T>(&cv); break;
                    case 12: { T& r = boost::relaxed_get<T>(v); p = std::addressof(r); break; }
                    case 13: { const T& r = boost::relaxed_get<T>(cv); p = std::addressof(r); break; }
                    case 14: { T&& r = boost::relaxed_get<T>(std::move(v)); p = std::addressof(r); break; }
                    case 15: { T x(boost::get<T>(std::move(v))); took = true; Quiet q; u64 k = G.walk; tv = Val<T>::canon(x); G.walk = k; break; }
                    case 16: p = boost::get<const T>(&cv); break;
                    case 17: p = boost::get<const T>(&v); break;
                    default: { const T& r = boost::get<const T>(v); p = std::addressof(r); break; }
                    }
                } catch (const boost::bad_get& e) { bad = true; named(w, e); }
            });
            bool ptr = mode == 0 || mode == 1 || mode == 5 || mode == 6 || mode == 10 || mode == 11 || mode == 16 || mode == 17;
            if (bad) probe(PR_BADGET);
            if (mode == 15) {
                if (held && ok && (!took || tv != m.val)) violate(P08 | P06, "get-value", "%s did not yield the content", w.what);
                if (!held && !bad) violate(P08, "get-no-bad-get", "%s did not throw bad_get for a type that is not held", w.what);
                if (held && G.op->ncopy && !Cfg::copyonly) violate(P08 | P06, "rvalue-copied", "%s copied although the variant was an rvalue", w.what);
                w.s.allow_moved_from(a, m.alt, m.val);
            } else if (held) {
                if (bad) violate(P08, "get-threw", "%s threw bad_get for the held type", w.what);
                else if (p != m.addr) violate(P08, "get-not-content", "%s gave %s instead of the content", w.what, p ? "another object" : "null");
            } else {
                if (ptr && (p || bad)) violate(P08, "get-non-null", "%s gave non-null for a type that is not held", w.what);
                if (!ptr && !bad) violate(P08, "get-no-bad-get", "%s did not throw bad_get for a type that is not held", w.what);
            }
            if (mode != 15 && (G.op->ncopy || G.op->nmove || G.op->allocs > 3))
                violate(P08 | (G.op->allocs > 3 ? P12 : 0u), "get-copies", "%s copied or moved content", w.what);
            w.sign(op, ok, m.alt, I, m.heap, held);
            w.check(ok, P08);
        }
    };
    static bool run(W& w, const Op& op, int a) {
#if SIM_GROUPS & GR_GET
        if (!w.s.m[a].ex) return false;
        int mode = w.op_mode(op, Cfg::poly ? 27 : 22);
        char ex[32];
        std::snprintf(ex, sizeof ex, " form %d", mode);
        w.begin(op, ex);
        Op o2 = op;
        o2.f.mask &= ~(1u << K_ALLOC);      // throwing bad_get itself is not to be disturbed
        if (mode < 19) {
            Fn fn = {w, o2, a, mode};
            with_type<L>((op.val & 1) ? w.s.m[a].alt : op.alt % W::S::nalts, fn);
            return true;
        }
        V& v = w.s.at(a);
        const V& cv = v;
        bool bad = false, bad2 = false;
        const void *p = 0, *q = 0;
        if (mode == 19) {
            V* nv = 0; const V* ncv = 0;
            typedef typename At<0, L>::type T0;
            attempt(o2, P08, [&] {
                p = boost::get<T0>(nv); q = boost::get<T0>(ncv);
                if (!p) p = boost::strict_get<T0>(nv);
                if (!q) q = boost::strict_get<T0>(ncv);
                if (!p) p = boost::relaxed_get<T0>(nv);
                if (!q) q = boost::relaxed_get<T0>(ncv);
                if (!p) p = boost::polymorphic_get<T0>(nv);
                if (!q) q = boost::polymorphic_get<T0>(ncv);
                if (!p) p = boost::polymorphic_strict_get<T0>(nv);
                if (!p) p = boost::polymorphic_relaxed_get<T0>(nv);
                if (!q) q = boost::polymorphic_relaxed_get<T0>(ncv);
            });
            if (p || q) violate(P08, "get-null-operand", "%s gave non-null for a null variant pointer", w.what);
        } else if (mode == 20) {
            attempt(o2, P08, [&] {
                p = boost::relaxed_get<NotThere>(&v);
                q = boost::relaxed_get<NotThere>(&cv);
                try { boost::relaxed_get<NotThere>(v); } catch (const boost::bad_get&) { bad = true; }
                try { boost::relaxed_get<NotThere>(cv); } catch (const boost::bad_get&) { bad2 = true; }
                bool bad3 = false;
                try { boost::relaxed_get<NotThere>(std::move(v)); } catch (const boost::bad_get&) { bad3 = true; }
                bad = bad && bad3;
#ifdef BOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT
                if (!p) p = boost::get<NotThere>(&v);
                if (!q) q = boost::get<NotThere>(&cv);
                bool bad4 = false, bad5 = false;
                try { boost::get<NotThere>(v); } catch (const boost::bad_get&) { bad4 = true; }
                try { boost::get<NotThere>(cv); } catch (const boost::bad_get&) { bad5 = true; }
                bad = bad && bad4 && bad5;
#endif
                if (!p) p = boost::polymorphic_relaxed_get<NotThere>(&v);
                if (!q) q = boost::polymorphic_relaxed_get<NotThere>(&cv);
                bool bad6 = false, bad7 = false;
                try { boost::polymorphic_relaxed_get<NotThere>(v); } catch (const boost::bad_polymorphic_get&) { bad6 = true; }
                try { boost::polymorphic_relaxed_get<NotThere>(cv); } catch (const boost::bad_polymorphic_get&) { bad7 = true; }
                bad2 = bad2 && bad6 && bad7;
            });
            if (Cfg::poly && !p && !q) attempt(o2, P08, [&] {
                p = boost::relaxed_get<PBase>(&v); q = boost::relaxed_get<PVirt>(&cv);
                bool bad8 = false, bad9 = false, bad10 = false;
                try { boost::relaxed_get<PBase>(v); } catch (const boost::bad_get&) { bad8 = true; }
                try { boost::relaxed_get<PBase>(cv); } catch (const boost::bad_get&) { bad9 = true; }
                try { boost::relaxed_get<PVirt>(std::move(v)); } catch (const boost::bad_get&) { bad10 = true; }
                bad = bad && bad8 && bad9 && bad10;
            });
            if (p || q || !bad || !bad2) violate(P08, "relaxed-get-foreign", "%s: relaxed_get of an unlisted type did not fail", w.what);
        } else if (mode > 21) {
            poly(w, o2, a, Bool<Cfg::poly>());
        } else {
            PFn fn = {w, o2, a};
            with_type<L>(op.alt % W::S::nalts, fn);
        }
        w.check(true, P08);
        return true;
#else
        (void)w; (void)op; (void)a; return false;
#endif
    }
#if SIM_GROUPS & GR_GET
    // polymorphic_get of a base class
    template <class Base> struct BaseOf {
        const void* addr; const void* want;
        template <class T, int I> void operator()() {
            go(static_cast<const T*>(addr), std::integral_constant<bool, std::is_base_of<Base, T>::value || std::is_same<Base, T>::value>());
        }
        template <class T> void go(const T* x, std::true_type) { const Base* b = x; want = b; }
        template <class T> void go(const T*, std::false_type) { want = 0; }
    };
    struct PFn {    // polymorphic_get of a non-polymorphic alternative behaves as get
        W& w; const Op& op; int a;
        template <class T, int I> void operator()() {
            V& v = w.s.at(a);
            const V& cv = v;
            Model m = w.s.m[a];
            const void* p[10];
            int bad = 0;
            std::memset(p, 0, sizeof p);
            attempt(op, P08, [&] {
                p[0] = boost::polymorphic_get<T>(&v); p[1] = boost::polymorphic_get<T>(&cv);
                p[2] = boost::polymorphic_strict_get<T>(&v); p[3] = boost::polymorphic_relaxed_get<T>(&cv);
                try { T& r = boost::polymorphic_get<T>(v); p[4] = std::addressof(r); } catch (const boost::bad_polymorphic_get& e) { ++bad; named(w, e); }
                try { const T& r = boost::polymorphic_get<T>(cv); p[5] = std::addressof(r); } catch (const boost::bad_polymorphic_get&) { ++bad; }
                try { T& r = boost::polymorphic_relaxed_get<T>(v); p[6] = std::addressof(r); } catch (const boost::bad_polymorphic_get&) { ++bad; }
                try { const T& r = boost::polymorphic_strict_get<T>(cv); p[7] = std::addressof(r); } catch (const boost::bad_polymorphic_get&) { ++bad; }
                try { T& r = boost::polymorphic_strict_get<T>(v); p[8] = std::addressof(r); } catch (const boost::bad_polymorphic_get&) { ++bad; }
                try { const T& r = boost::polymorphic_relaxed_get<T>(cv); p[9] = std::addressof(r); } catch (const boost::bad_polymorphic_get&) { ++bad; }
            });
            BaseOf<T> bo = {m.addr, 0};
            with_type<L>(m.alt, bo);
            bool held = bo.want != 0;
            for (int k = 0; k < 10; ++k)
                if (p[k] != bo.want) { violate(P08, "polymorphic-get", "%s: polymorphic_get form %d is wrong", w.what, k); break; }
            if (bad != (held ? 0 : 6)) violate(P08, "polymorphic-get-throw", "%s: polymorphic_get threw %d times", w.what, bad);
        }
    };
    template <class Base> static void base(W& w, const Op& op, int a) {
        V& v = w.s.at(a);
        const V& cv = v;
        const Model m = w.s.m[a];
        BaseOf<Base> bo = {m.addr, 0};
        with_type<L>(m.alt, bo);
        const void* p[15];
        std::memset(p, 0, sizeof p);
        int bad = 0;
        attempt(op, P08, [&] {
            p[0] = boost::polymorphic_get<Base>(&v); p[1] = boost::polymorphic_get<Base>(&cv);
            p[2] = boost::polymorphic_strict_get<Base>(&v); p[3] = boost::polymorphic_strict_get<Base>(&cv);
            p[4] = boost::polymorphic_relaxed_get<Base>(&v); p[5] = boost::polymorphic_relaxed_get<Base>(&cv);
            p[6] = boost::polymorphic_get<const Base>(&v); p[7] = boost::polymorphic_get<const Base>(&cv);
            try { Base& r = boost::polymorphic_get<Base>(v); p[8] = &r; } catch (const boost::bad_polymorphic_get&) { ++bad; }
            try { const Base& r = boost::polymorphic_get<Base>(cv); p[9] = &r; } catch (const boost::bad_polymorphic_get&) { ++bad; }
            try { Base& r = boost::polymorphic_strict_get<Base>(v); p[10] = &r; } catch (const boost::bad_polymorphic_get&) { ++bad; }
            try { const Base& r = boost::polymorphic_strict_get<Base>(cv); p[11] = &r; } catch (const boost::bad_polymorphic_get&) { ++bad; }
            try { Base& r = boost::polymorphic_relaxed_get<Base>(v); p[12] = &r; } catch (const boost::bad_polymorphic_get&) { ++bad; }
            try { const Base& r = boost::polymorphic_relaxed_get<Base>(cv); p[13] = &r; } catch (const boost::bad_polymorphic_get&) { ++bad; }
            try { const Base& r = boost::polymorphic_get<const Base>(v); p[14] = &r; } catch (const boost::bad_polymorphic_get&) { ++bad; }
        });
        for (int k = 0; k < 15; ++k)
            if (p[k] != bo.want) {
                violate(P08, "polymorphic-get-base", "%s: polymorphic_get of a base, form %d, gave %s, alternative %d is held", w.what, k,
                        p[k] ? (bo.want ? "another object" : "non-null") : "nothing", m.alt);
                break;
            }
        if (bad != (bo.want ? 0 : 7)) violate(P08, "polymorphic-get-throw", "%s: polymorphic_get of a base threw %d times", w.what, bad);
        w.sign(op, true, m.alt, sizeof(Base) & 63, m.heap, bo.want != 0);
    }
    static void poly(W&, const Op&, int, std::false_type) {}
    static void poly(W& w, const Op& op, int a, std::true_type) {
        if (op.mode & 1) base<PBase>(w, op, a); else base<PVirt>(w, op, a);
    }
#endif
};

// ---------------------------------------------------------------- comparison and hashing
template <class W, class Cfg, bool On> struct CmpOps {
    static bool run(W&, const Op&, int, int) { return false; }
};
template <class W, class Cfg> struct CmpOps<W, Cfg, true> {
    typedef typename Cfg::V V;
    typedef typename W::L L;
    struct Direct {
        const void *x, *y; bool eq, lt, gt;
        template <class T, int I> void operator()() {
            const T& p = *static_cast<const T*>(x);
            const T& q = *static_cast<const T*>(y);
            eq = p == q; lt = p < q; gt = q < p;
        }
    };
    struct Raw { const void* x; std::size_t h; template <class T, int I> void operator()() { h = boost::hash<T>()(*static_cast<const T*>(x)); } };
    static void expected(W& w, int a, int b, bool& eq, bool& lt, bool& gt) {
        Quiet q;
        const Model &x = w.s.m[a], &y = w.s.m[b];
        if (x.alt != y.alt) { eq = false; lt = x.alt < y.alt; gt = !lt; return; }
        Direct d = {x.addr, y.addr, false, false, false};
        with_type<L>(x.alt, d);
        eq = d.eq; lt = d.lt; gt = d.gt;
    }
    static bool run(W& w, const Op& op, int a, int b) {
        if (!w.s.m[a].ex || !w.s.m[b].ex) return false;
        const V& x = w.s.at(a);
        const V& y = w.s.at(b);
        if (op.code == O_CMP) {
            static const char* const nm[6] = {" ==", " <", " !=", " >", " <=", " >="};
            int mode = w.op_mode(op, 6);
            w.begin(op, nm[mode]);
            bool eq, lt, gt, got = false;
            if (w.alone && op.val % 4 == 0) G.relation = 1 + op.val / 4 % 2;
            expected(w, a, b, eq, lt, gt);
            if (G.relation == 1 && !eq && !lt && !gt && mode > 3) G.relation = 0, expected(w, a, b, eq, lt, gt);   // <= and >= of unordered values are not specified
            const bool unordered = !eq && !lt && !gt;
            const bool want[6] = {eq, lt, !eq, gt, !gt, !lt};
            bool ok = attempt(op, P09, [&] {
                switch (mode) {
                case 0: got = x == y; break;
                case 1: got = x < y; break;
                case 2: got = x != y; break;
                case 3: got = x > y; break;
                case 4: got = x <= y; break;
                default: got = x >= y; break;
                }
            });
            G.relation = 0;
            w.check_allocs(true);
            if (!ok) probe(PR_CMP_THROW);
            if (ok && got != want[mode] && !(unordered && mode > 3))
                violate(P09, "comparison", "%s is %d, should be %d (alternatives %d %d)", w.what, got, want[mode], w.s.m[a].alt, w.s.m[b].alt);
            if (w.s.m[a].alt != w.s.m[b].alt && ok && (G.op->cnt[K_EQ] || G.op->cnt[K_LT]))
                violate(P09, "comparison-cross-type", "%s compared contents of different alternatives", w.what);
            w.sign(op, ok, w.s.m[a].alt, w.s.m[b].alt, w.s.m[a].heap, w.s.m[b].heap);
            w.check(ok, P09);
            return true;
        }
        return hash(w, op, a, b, Bool<Cfg::hash>());
    }
    static bool hash(W&, const Op&, int, int, std::false_type) { return false; }
    static bool hash(W& w, const Op& op, int a, int b, std::true_type) {
        const V& x = w.s.at(a);
        const V& y = w.s.at(b);
        w.begin(op, "");
        probe(PR_HASH);
        std::size_t h1 = 0, h2 = 0, h3 = 0, g = 0;
        boost::hash<V> bh;
        std::hash<V> sh;
        bool ok = attempt(op, P09, [&] { h1 = bh(x); h2 = sh(x); h3 = hash_value(x); g = bh(y); });
        w.check_allocs(true);
        if (ok) {
            bool eq, lt, gt;
            expected(w, a, b, eq, lt, gt);
            std::size_t ea = 0, eb = 1;
            if (w.s.m[a].alt != w.s.m[b].alt && h1 == g) {
                Quiet q;
                Raw ra = {w.s.m[a].addr, 0}, rb = {w.s.m[b].addr, 0};
                with_type<L>(w.s.m[a].alt, ra); with_type<L>(w.s.m[b].alt, rb);
                ea = ra.h; eb = rb.h;
            }
            if (ea == eb) violate(P09, "hash-ignores-type", "%s: contents of different alternatives with one hash value give the variants one hash value", w.what);
            else if (h1 != h2 || h1 != h3) violate(P09, "hash-forms", "%s: the ways to hash one variant disagree", w.what);
            else if (eq && h1 != g) violate(P09, "hash-equal", "%s: equal variants hash differently", w.what);
            else if (!eq && w.s.m[a].alt == w.s.m[b].alt && w.info(w.s.m[a].alt).simple && w.s.m[a].val != w.s.m[b].val && h1 == g && w.info(w.s.m[a].alt).fp)
                violate(P09, "hash-ignores-content", "%s: different contents of one alternative hash the same", w.what);
        }
        w.sign(op, ok, w.s.m[a].alt, w.s.m[b].alt, w.s.m[a].heap, w.s.m[b].heap);
        w.check(ok, P09);
        return true;
    }
};

// ---------------------------------------------------------------- streaming
template <class W, class Cfg, bool On> struct StreamOps {
    static bool run(W&, const Op&, int) { return false; }
};
template <class W, class Cfg> struct StreamOps<W, Cfg, true> {
    typedef typename Cfg::V V;
    typedef typename W::L L;
    template <class C> struct Content {
        const void* x; std::basic_ostream<C>* os;
        template <class T, int I> void operator()() { *os << *static_cast<const T*>(x); }
    };
    template <class C> static StreamOutcome one(W& w, const Op& op, int a, bool direct, bool& same_stream) {
        StreamOutcome r;
        int how = op.c % 4 == 0 ? 2 : op.c & 1;
        FaultyBuf<C> buf(op.b % 12, how);
        std::basic_ostream<C> os(&buf);
        if (op.alt & 1) os.width(op.val % 5 ? 5 + op.alt % 7 : 20 + op.val * 2);
        if (op.alt & 2) os.setf(std::ios::showpos | std::ios::left, std::ios::showpos | std::ios::adjustfield);
        if (op.alt & 4) os.setf(std::ios::hex, std::ios::basefield);
        if (op.alt & 8) os.fill(C('*'));
        if (op.alt & 16) os.precision(3);
        if (op.mode & 2) os.setstate(std::ios::failbit);
        if (op.mode & 4) os.setstate(std::ios::eofbit);
        if ((op.mode & 24) == 8) { try { os.exceptions(std::ios::badbit); } catch (const std::ios_base::failure&) {} }
        if ((op.mode & 24) == 16) { try { os.exceptions(std::ios::failbit | std::ios::badbit); } catch (const std::ios_base::failure&) {} }
        r.threw = 0;
        OpState& o = *G.op;
        o.reset();
        o.f = op.f;
        o.f.mask &= 1u << K_STREAM;
        const V& v = w.s.at(a);
        o.active = true; G.tracking = true;
        try {
            if (direct) { Content<C> fn = {w.s.m[a].addr, &os}; with_type<L>(w.s.m[a].alt, fn); }
            else { std::basic_ostream<C>& back = os << v; same_stream = &back == &os; }
        } catch (const Boom& e) { r.threw = e.serial ? 1 : 2;
        } catch (const BoomStd&) { r.threw = 3;
        } catch (const BoomAlloc&) { r.threw = 4;
        } catch (const std::ios_base::failure&) { r.threw = 5;
        } catch (...) { r.threw = 6; }
        o.active = false; G.tracking = false;
        ++G.st.ops;
        if (buf.hits) { probe(PR_SBUF_FAIL); ++G.st.faults[K_SBUF]; }
        r.n = buf.n; r.state = os.rdstate(); r.hits = buf.hits; r.flags = static_cast<int>(os.flags()); r.width = static_cast<int>(os.width());
        r.prec = static_cast<int>(os.precision());
        r.fill = static_cast<int>(os.fill()); r.word = static_cast<int>(os.iword(stream_slot()));
        r.chars = 0;
        for (int i = 0; i < buf.n && i < 256; ++i) r.chars = mix(r.chars, static_cast<u64>(buf.out[i]));
        return r;
    }
    static bool run(W& w, const Op& op, int a) {
        if (!w.s.m[a].ex) return false;
        bool wide = (op.mode & 1) != 0 && Cfg::wide;
        w.begin(op, wide ? " wide" : "");
        G.cur_tags = P11;
        bool same = true, dummy = true;
        typedef typename std::conditional<Cfg::wide, wchar_t, char>::type WC;
        StreamOutcome x = wide ? one<WC>(w, op, a, false, same) : one<char>(w, op, a, false, same);
        u32 fired = G.op->fired;
        StreamOutcome y = wide ? one<WC>(w, op, a, true, dummy) : one<char>(w, op, a, true, dummy);
        bool failed = x.threw || x.hits || fired;
        if (!(x == y))
            violate(P11 | (x.threw != y.threw ? P04 : 0u), "stream-differs", "%s differs from streaming the content: %d/%d characters, state %d/%d, exception %d/%d", w.what,
                    x.n, y.n, x.state, y.state, x.threw, y.threw);
        else if (!same) violate(P11, "stream-reference", "%s did not return the stream", w.what);
        ev(mix(x.chars, x.state * 8 + x.threw));
        G.op->reset();
        w.sg = mix(mix(op.code, op.mode & 31), mix(w.s.m[a].alt * 2 + w.s.m[a].heap, mix(x.state * 8 + x.threw, x.n)));
        w.check(!failed, P11);
        return true;
    }
};

// ---------------------------------------------------------------- containers of variants
template <class W, class Cfg, bool On> struct ContOps {
    static bool run(W&, const Op&) { return false; }
};
template <class W, class Cfg> struct ContOps<W, Cfg, true> {
    typedef typename Cfg::V V;
    typedef typename W::L L;
    static void fill(W& w, std::vector<V>& vec, u64* ex, int* exalt, int& n, std::true_type) {
        for (int i = 0; i < NV; ++i)
            if (w.s.m[i].ex) { vec.push_back(w.s.cat(i)); ex[n] = w.s.m[i].val; exalt[n] = w.s.m[i].alt; ++n; }
    }
    static void fill(W&, std::vector<V>&, u64*, int*, int&, std::false_type) {}
    static bool run(W& w, const Op& op) {
        int mode = w.op_mode(op, 5);
        static const char* const nm[5] = {" vector growth", " rotate", " reverse", " insert front", " erase front"};
        w.begin(op, nm[mode]);
        probe(PR_CONTAINER);
        typedef std::vector<V> Vec;
        typename std::aligned_storage<sizeof(Vec), std::alignment_of<Vec>::value>::type raw;
        u64 ex[NV + 1];
        int exalt[NV + 1];
        int n = 0;
        bool ok = true;
        bool nt = std::is_nothrow_move_constructible<V>::value;
        Vec* vec;
        {
            G.op->reset(); G.op->active = true; G.tracking = true;
            vec = new (&raw) Vec();
            vec->reserve(NV);
            fill(w, *vec, ex, exalt, n, Bool<Cfg::copyable>());
            G.op->active = false; G.tracking = false;
        }
        if (n < 2) { drop(vec); w.check(true, P05); return true; }
        switch (mode) {
        case 0: ok = attempt(op, P05 | P06 | P04, [&] { vec->reserve(NV * 4); });
                if (nt && G.op->ncopy) violate(P06 | P04, "relocation-copied", "%s copied elements of a nothrow-movable variant", w.what);
                break;
        case 1: ok = attempt(op, P05 | P06 | P04, [&] { std::rotate(vec->begin(), vec->begin() + 1, vec->end()); });
                if (ok) { u64 t = ex[0]; int u = exalt[0]; for (int i = 1; i < n; ++i) { ex[i - 1] = ex[i]; exalt[i - 1] = exalt[i]; } ex[n - 1] = t; exalt[n - 1] = u; }
                break;
        case 2: ok = attempt(op, P05 | P06 | P04, [&] { std::reverse(vec->begin(), vec->end()); });
                if (ok) for (int i = 0; i < n / 2; ++i) { std::swap(ex[i], ex[n - 1 - i]); std::swap(exalt[i], exalt[n - 1 - i]); }
                break;
        case 3: { ins(w, op, vec, ex, exalt, n, ok, Bool<Cfg::copyable>()); break; }
        default: ok = attempt(op, P05 | P06 | P04, [&] { vec->erase(vec->begin()); });
                if (ok) { for (int i = 1; i < n; ++i) { ex[i - 1] = ex[i]; exalt[i - 1] = exalt[i]; } --n; }
                break;
        }
        {
            Quiet q;
            u64 wk = G.walk;
            if (ok && static_cast<int>(vec->size()) != n) violate(P05, "container-size", "%s changed the element count", w.what);
            for (std::size_t i = 0; i < vec->size(); ++i) {
                const V& v = (*vec)[i];
                int wh = v.which();
                if (wh < 0 || wh >= W::S::nalts) { violate(P01, "which-out-of-range", "which() out of range after %s", w.what); break; }
                if (!ok && w.info(wh).pod) { typename W::S::SetFn fn = {&(*vec)[i], 0}; with_type<L>(wh, fn); }
                Observer<L> ob;
                Obs o = boost::apply_visitor(ob, v);
                if (o.alt != wh) violate(P01, "which-vs-visit", "which() and content disagree after %s", w.what);
                if (ok && (o.canon != ex[i] || o.alt != exalt[i])) { violate(P05, "container-value", "element %zu has the wrong value after %s", i, w.what); break; }
                ev(mix(o.alt, o.canon));
            }
            G.walk = wk;
        }
        w.sg = mix(mix(op.code, mode), ok ? 0 : 1 + G.op->last_kind * 64 + G.op->first_ord);
        if (!G.vio.set) drop(vec);
        w.check(ok, P05);
        return true;
    }
    static void ins(W& w, const Op& op, std::vector<V>* vec, u64* ex, int* exalt, int& n, bool& ok, std::true_type) {
        int b = -1;
        for (int i = 0; i < NV; ++i) if (w.s.m[i].ex) b = i;
        if (b < 0) return;
        const V& src = w.s.at(b);
        ok = attempt(op, P05 | P06 | P04, [&] { vec->insert(vec->begin(), src); });
        if (ok) {
            for (int i = n; i > 0; --i) { ex[i] = ex[i - 1]; exalt[i] = exalt[i - 1]; }
            ex[0] = w.s.m[b].val; exalt[0] = w.s.m[b].alt; ++n;
        }
    }
    static void ins(W&, const Op&, std::vector<V>*, u64*, int*, int&, bool&, std::false_type) {}
    static void drop(std::vector<V>* vec) {
        OpState keep = *G.op;
        G.op->active = true; G.tracking = true;
        vec->~vector();
        *G.op = keep;
        G.tracking = false;
    }
};

// ---------------------------------------------------------------- dispatch
template <class Cfg> bool World<Cfg>::step2(const Op& op, int a, int b) {
    typedef World W;
    (void)static_cast<W*>(0);
    switch (op.code) {
#if SIM_GROUPS & GR_CONV
    case O_F_CTOR: case O_F_ASG: case O_CTOR_CONV: case O_ASG_CONV:
        return ConvOps<W, Cfg, Cfg::foreign != 0>::run(*this, op, a, b);
    case O_CTOR_SRC: case O_ASG_SRC:
        return SrcOps<W, Cfg, Cfg::src != 0>::run(*this, op, a);
#endif
#if SIM_GROUPS & GR_VISIT
    case O_VISIT1: return VisitOps<W, Cfg>::unary(*this, op, a);
#endif
#if SIM_GROUPS & GR_VISIT2
    case O_VISIT2: return VisitOps<W, Cfg>::binary(*this, op, a, b, Bool<Cfg::visit2>());
#endif
#if SIM_GROUPS & GR_MULTI
    case O_VISITN: return VisitOps<W, Cfg>::multi(*this, op, a, Bool<Cfg::visitn>());
#endif
#if SIM_GROUPS & GR_GET
    case O_GET: return GetOps<W, Cfg>::run(*this, op, a);
#endif
#if SIM_GROUPS & GR_CMP
    case O_CMP: case O_HASH: return CmpOps<W, Cfg, Cfg::cmp != 0>::run(*this, op, a, b);
#endif
#if SIM_GROUPS & GR_STREAM
    case O_STREAM: return StreamOps<W, Cfg, Cfg::stream != 0>::run(*this, op, a);
#endif
#if SIM_GROUPS & GR_CONT
    case O_CONT: return ContOps<W, Cfg, Cfg::cont != 0>::run(*this, op);
#endif
#if SIM_GROUPS & GR_REC
    case O_NEST: return Cfg::nest(*this, op, a, b);
#endif
    default: (void)a; (void)b; return false;
    }
}

} // namespace sim
#endif
