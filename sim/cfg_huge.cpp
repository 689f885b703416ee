#include <boost/mpl/list.hpp>
#include <boost/mpl/push_front.hpp>
#include "world.h"
using namespace sim;
namespace {
// More types than one unrolled dispatch takes (36) or than the index type of a size-minimised variant takes (132, cfg_huge2).
#ifndef HUGE_NT
#define HUGE_NT 36
#endif
const int NT = HUGE_NT;
template <int I> struct H : El<8> {
    int id;
    explicit H(int v) : El<8>(v, 0), id(I) {}
    friend bool operator==(const H& a, const H& b) { return static_cast<const El<8>&>(a) == static_cast<const El<8>&>(b); }
    friend bool operator<(const H& a, const H& b) { return static_cast<const El<8>&>(a) < static_cast<const El<8>&>(b); }
};
template <int I> struct Lst { typedef typename boost::mpl::push_front<typename Lst<I + 1>::type, H<I> >::type type; };
template <> struct Lst<NT> { typedef boost::mpl::list<> type; };
typedef boost::make_variant_over<Lst<0>::type>::type V;

struct HObs { int alt, id; u64 val; const void* addr; const std::type_info* ti; };
struct Watch : boost::static_visitor<HObs> {
    template <int I> HObs operator()(const H<I>& x) const {
        HObs o = {I, x.id, Val<El<8> >::canon(x), &x, &typeid(H<I>)};
        return o;
    }
};
struct Bump : boost::static_visitor<int> {
    int v;
    explicit Bump(int x) : v(x) {}
    template <int I> int operator()(H<I>& x) const { fault_point(K_VISIT); x.v = v; return I; }
};
struct Made { V* p; int val; bool rv; bool ok; };
template <int I> void construct(const Op& op, V* p) {
    H<I> x(op.val);
    if (op.mode & 8) new (static_cast<void*>(p)) V(std::move(x));
    else new (static_cast<void*>(p)) V(static_cast<const H<I>&>(x));
}
template <int I> const void* getp(V* p) { return (p->which() & 1) ? static_cast<const void*>(boost::strict_get<H<I> >(p)) : boost::relaxed_get<H<I> >(static_cast<const V*>(p)); }
typedef void (*CtorFn)(const Op&, V*);
typedef const void* (*GetFn)(V*);
// the alternatives constructed and asked for: all of a moderate list, some of a very long one
template <int I> struct Used { static const int value = NT < 50 ? I : I == 0 || I == 37 || I == 127 || I == NT - 1 ? I : -1; };
template <int I, bool E> struct Fill {
    static void go(CtorFn* c, GetFn* g) {
        const int U = Used<I>::value < 0 ? 0 : I;
        c[I] = Used<I>::value < 0 ? 0 : &construct<U>;
        g[I] = Used<I>::value < 0 ? 0 : &getp<U>;
        Fill<I + 1, I + 1 == NT>::go(c, g);
    }
};
template <int I> struct Fill<I, true> { static void go(CtorFn*, GetFn*) {} };
struct Tab { CtorFn c[NT]; GetFn g[NT]; Tab() { Fill<0, false>::go(c, g); } };
const Tab& tab() { static const Tab t; return t; }

const int NSL = 3;
class HugeWorld : public IWorld {
    struct S { bool ex, heap; int alt; u64 val; unsigned char lo[32]; std::aligned_storage<sizeof(V), 16>::type m; unsigned char hi[32]; } s[NSL];
    u64 sg;
    char what[96];
    V& at(int i) { return *reinterpret_cast<V*>(&s[i].m); }
    const V& cat(int i) { return at(i); }
    void kill(int i) {
        if (!s[i].ex) return;
        G.op->reset(); G.op->active = true; G.tracking = true;
        at(i).~V();
        G.op->active = false; G.tracking = false;
        s[i].ex = false;
    }
    template <int I> bool asg(int i, const Op& op) {
        H<I> x(op.val);
        return attempt(op, P14 | P03 | P05, [&] { if (op.mode & 8) at(i) = std::move(x); else at(i) = static_cast<const H<I>&>(x); });
    }
    void verify(bool ok) {
        Quiet q;
        const u32 t = P14 | (ok ? P05 : P03 | P05);
        for (int i = 0; i < NSL; ++i) {
            for (int k = 0; k < 32; ++k) if (s[i].lo[k] != 0x5A || s[i].hi[k] != 0xA5) { violate(P02 | P14, "redzone", "memory outside a variant was written by %s", what); break; }
            if (!s[i].ex) continue;
            const V& v = cat(i);
            int w = v.which();
            if (w < 0 || w >= NT || v.empty()) { violate(P01 | P14, "which-out-of-range", "which() is %d after %s", w, what); return; }
            HObs o = boost::apply_visitor(Watch(), v);
            if (o.alt != w || v.type() != *o.ti || o.id != o.alt) { violate(P01 | P07 | P14, "which-vs-visit", "which() is %d, the visited object %d, the object itself %d after %s", w, o.alt, o.id, what); return; }
            if (o.alt != s[i].alt || o.val != s[i].val) { violate(t, "wrong-state", "slot %d holds alternative %d value %lld after %s %s, should be %d value %lld", i, o.alt, (long long)o.val, ok ? "successful" : "failed", what, s[i].alt, (long long)s[i].val); return; }
            bool in = o.addr >= static_cast<const void*>(&s[i].m) && o.addr < static_cast<const void*>(s[i].hi);
            if (!in && !s[i].heap) { violate(P12 | P14, "content-outside", "the content of slot %d is outside it after %s", i, what); return; }
            if (!in) { probe(PR_HEAP); if (o.alt >= 32) probe(PR_LARGE_INDEX); }
            ev(mix(o.alt, o.val));
        }
        std::size_t n = 0;
        for (int i = 0; i < NSL; ++i) n += s[i].ex;
        if (!G.vio.set && obj_count() != n) violate(P02 | P14, "leaked-object", "%zu objects are alive, %zu expected, after %s", obj_count(), n, what);
    }
    bool done(bool ok, int k, int i) { sg = mix(mix(k, s[i].ex ? s[i].alt : 200), ok ? s[i].heap : 2 + G.op->last_kind * 64 + G.op->first_ord); if (!G.vio.set) verify(ok); return true; }
public:
    HugeWorld() : sg(0) {
        what[0] = 0;
        for (int i = 0; i < NSL; ++i) { s[i].ex = s[i].heap = false; std::memset(s[i].lo, 0x5A, 32); std::memset(s[i].hi, 0xA5, 32); std::memset(&s[i].m, 0xEE, sizeof(V)); }
    }
    u64 sig() const { return sg; }
    bool step(const Op& op) {
        int i = op.a % NSL, j = op.b % NSL, k = op.mode % 8, alt = static_cast<int>((static_cast<unsigned>(op.c) * 37u + static_cast<unsigned>(op.alt) * 11u + static_cast<unsigned>(op.val)) % NT);
        while (!tab().c[alt]) alt = (alt + 1) % NT;
        u64 nv;
        { Quiet q; El<8> e(op.val, 0); nv = Val<El<8> >::canon(e); }
        static const char* const nm[8] = {"construction", "copy construction", "move construction", "assignment of a value", "get", "comparison", "mutation", "assignment of a value"};
        std::snprintf(what, sizeof what, "%s", nm[k]);
        std::snprintf(G.where, sizeof G.where, "huge %s alternative %d", nm[k], alt);
        ev(0x7300 + k);
        V* p = &at(i);
        if ((k == 1 || k == 2) && (i == j || !s[j].ex)) return false;
        if (k >= 3 && !s[i].ex) k = 0;
        bool ok;
        switch (k) {
        case 0:
            kill(i);
            ok = attempt(op, P14 | P05, [&] { tab().c[alt](op, p); });
            if (ok) { s[i].ex = true; s[i].heap = false; s[i].alt = alt; s[i].val = nv; }
            return done(ok, k, i);
        case 1: case 2:
            kill(i);
            if (k == 1) ok = attempt(op, P14 | P05, [&] { new (static_cast<void*>(p)) V(cat(j)); });
            else ok = attempt(op, P14 | P05 | P06, [&] { new (static_cast<void*>(p)) V(std::move(at(j))); });
            if (ok) { s[i].ex = true; s[i].heap = false; s[i].alt = s[j].alt; s[i].val = s[j].val; }
            if (k == 2) { Quiet q; HObs o = boost::apply_visitor(Watch(), cat(j)); if (o.alt == s[j].alt) s[j].val = o.val; }
            return done(ok, k, i);
        case 3: case 7: {
            static const int as[4] = {0, 21, NT - 5, NT - 1};
            int x = NT < 50 ? op.alt & 3 : 0;
            ok = x == 0 ? asg<0>(i, op) : x == 1 ? asg<NT < 50 ? 21 : 0>(i, op) : x == 2 ? asg<NT < 50 ? NT - 5 : 0>(i, op) : asg<NT < 50 ? NT - 1 : 0>(i, op);
            if (ok) { if (s[i].alt != as[x]) s[i].heap = false; s[i].alt = as[x]; s[i].val = nv; }
            else {
                if (s[i].alt == as[x]) { Quiet q; HObs o = boost::apply_visitor(Watch(), cat(i)); if (o.alt == s[i].alt) s[i].val = o.val; }
                else s[i].heap = true;
            }
            return done(ok, k, i);
        }
        case 4: {
            const void* got = 0; HObs o;
            int want = op.val & 1 ? s[i].alt : alt;
            { Quiet q; o = boost::apply_visitor(Watch(), cat(i)); }
            ok = attempt(op, P14 | P08, [&] { got = tab().g[want](p); });
            if (ok && got != (want == s[i].alt ? o.addr : 0)) violate(P08 | P14, "get-not-content", "get of alternative %d from a variant holding %d gives %s", want, s[i].alt, got ? "something else" : "null");
            return done(ok, k, i);
        }
        case 5: {
            if (!s[j].ex) return false;
            bool e = false, l = false;
            ok = attempt(op, P14 | P09, [&] { e = cat(i) == cat(j); l = cat(i) < cat(j); });
            if (ok) {
                bool xe, xl;
                { Quiet q; bool ve = rel_eq(s[i].val == s[j].val), vl = rel_lt(static_cast<long long>(s[i].val) < static_cast<long long>(s[j].val)); xe = s[i].alt == s[j].alt && ve; xl = s[i].alt != s[j].alt ? s[i].alt < s[j].alt : vl; }
                if (e != xe || l != xl) violate(P09 | P14, "compare", "comparison of alternatives %d and %d gives == %d < %d", s[i].alt, s[j].alt, e, l);
            }
            return done(ok, k, i);
        }
        default: {
            int r = -1;
            ok = attempt(op, P14 | P07, [&] { Bump b(op.val); r = boost::apply_visitor(b, at(i)); });
            if (ok) { if (r != s[i].alt) violate(P07 | P14, "visit-result", "visiting alternative %d gives %d", s[i].alt, r); s[i].val = nv; }
            return done(ok, k, i);
        }
        }
    }
    void finish() {
        for (int i = 0; i < NSL; ++i) kill(i);
        if (obj_count()) violate(P02 | P14, "leaked-object", "%zu objects are still alive after every variant was destroyed", obj_count());
        else if (heap_tracked()) violate(P02 | P14, "leaked-memory", "%zu heap blocks are still held after every variant was destroyed", heap_tracked());
        heap_check("at the end of the run");
    }
};
IWorld* make() { return new HugeWorld(); }
void gen_ops(u32* w) { for (int i = 0; i < O_N; ++i) w[i] = i == O_SPECIAL; }
CfgEntry entry = {NT < 50 ? "long_sequence" : "huge_sequence", &make, &gen_ops, P14, 3, 0, 0};
Reg reg(entry);
}
