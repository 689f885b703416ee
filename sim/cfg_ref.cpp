#include "world.h"
#include <sstream>
using namespace sim;
namespace {
// Reference alternatives: the variant refers to an outside object, which it must neither copy, move, destroy nor replace.
typedef El<1> A; typedef El<2> B; typedef El<3, F_NTMOVE> C;
typedef boost::variant<A&, B, const C&> V;
typedef boost::variant<B, A> X;            // value variant converted from a reference variant
typedef boost::variant<A&, B> V2;          // narrower reference variant converted into V
const int NS = 3, NR = 3;

struct Seen { int alt; const void* addr; int cat; u64 val; };
struct See : boost::static_visitor<Seen> {
    mutable int calls;
    See() : calls(0) {}
    template <class T> Seen operator()(T&& x) const {
        typedef typename std::remove_reference<T>::type XT;
        typedef typename std::remove_cv<XT>::type U;
        ++calls;
        Seen s = {IndexOf<U, TL<A, B, C> >::value, static_cast<const void*>(std::addressof(x)),
                  (std::is_lvalue_reference<T>::value ? 0 : 2) + (std::is_const<XT>::value ? 1 : 0), Val<U>::canon(x)};
        return s;
    }
};

class RefWorld : public IWorld {
    A* a[NR]; C* c[NR]; u64 av[NR], cv[NR];
    struct Slot { bool ex; int alt; int r; u64 val; std::aligned_storage<sizeof(V), 16>::type m; unsigned char z[32]; } s[NS];
    struct XSlot { bool ex; int alt; u64 val; std::aligned_storage<sizeof(X), 16>::type m; } x[2];
    struct YSlot { bool ex; int alt; int r; u64 val; std::aligned_storage<sizeof(V2), 16>::type m; } y[2];
    u64 sg; char what[80];
    V& at(int i) { return *reinterpret_cast<V*>(&s[i].m); }
    X& xat(int i) { return *reinterpret_cast<X*>(&x[i].m); }
    V2& yat(int i) { return *reinterpret_cast<V2*>(&y[i].m); }
    const void* target(int i) { return s[i].alt == 0 ? static_cast<const void*>(a[s[i].r]) : s[i].alt == 2 ? static_cast<const void*>(c[s[i].r]) : 0; }
    u64 expect(int i) { return s[i].alt == 0 ? av[s[i].r] : s[i].alt == 2 ? cv[s[i].r] : s[i].val; }
    void kill(int i) { if (s[i].ex) { G.tracking = true; at(i).~V(); G.tracking = false; s[i].ex = false; } std::memset(&s[i].m, 0xA5, sizeof s[i].m); }
    void xkill(int i) { if (x[i].ex) { G.tracking = true; xat(i).~X(); G.tracking = false; x[i].ex = false; } }
    void ykill(int i) { if (y[i].ex) { G.tracking = true; yat(i).~V2(); G.tracking = false; y[i].ex = false; } }
public:
    RefWorld() : sg(0) {
        for (int i = 0; i < NR; ++i) { a[i] = new A(10 + i, 0); c[i] = new C(20 + i, 0); av[i] = Val<A>::canon(*a[i]); cv[i] = Val<C>::canon(*c[i]); }
        for (int i = 0; i < NS; ++i) { s[i].ex = false; std::memset(s[i].z, 0x77, sizeof s[i].z); }
        x[0].ex = x[1].ex = y[0].ex = y[1].ex = false;
        std::memset(what, 0, sizeof what);
    }
    ~RefWorld() {}
    u64 sig() const { return sg; }
    void check(bool ok, u32 tags) {
        Quiet q;
        u32 save = G.cur_tags;
        G.cur_tags |= tags;
        std::size_t objs = 2 * NR;
        for (int i = 0; i < NR; ++i) {
            if (Val<A>::canon(*a[i]) != av[i] || Val<C>::canon(*c[i]) != cv[i]) violate(P05 | tags, "referent-changed", "%s changed an object a variant only refers to", what);
        }
        for (int i = 0; i < NS; ++i) {
            if (!s[i].ex) continue;
            if (s[i].alt == 1) ++objs;
            const V& v = at(i);
            See see;
            Seen o = boost::apply_visitor(see, v);
            if (see.calls != 1) violate(P07 | tags, "observe-visit-count", "visiting ran the visitor %d times after %s", see.calls, what);
            if (v.which() != s[i].alt || o.alt != s[i].alt) violate(P01 | P05 | tags, "wrong-state", "slot %d holds alternative %d/%d, expected %d, after %s", i, v.which(), o.alt, s[i].alt, what);
            else if (o.val != expect(i)) violate(P05 | tags, "wrong-state", "slot %d holds value %lld, expected %lld, after %s", i, (long long)o.val, (long long)expect(i), what);
            else if (target(i) && o.addr != target(i)) violate(P05 | P07 | tags, "wrong-referent", "slot %d refers to another object after %s", i, what);
            if (s[i].alt == 0 && boost::get<A>(&at(i)) != target(i)) violate(P08, "get-not-content", "get<T> of a reference alternative is not the referent after %s", what);
            if (s[i].alt == 2 && boost::get<const C>(&at(i)) != target(i)) violate(P08, "get-not-content", "get<const T> of a reference alternative is not the referent after %s", what);
            if (s[i].alt != 0 && (boost::get<A>(&at(i)) || boost::get<A>(&v))) violate(P08, "get-non-null", "get<T> is not null for a reference alternative not held after %s", what);
            for (unsigned k = 0; k < sizeof s[i].z; ++k) if (s[i].z[k] != 0x77) { violate(P02, "redzone", "memory outside a variant was written by %s", what); break; }
            ev(mix(o.alt, o.val));
        }
        for (int i = 0; i < 2; ++i) {
            if (x[i].ex) {
                ++objs;
                const X& v = xat(i);
                if (v.which() != x[i].alt) { violate(P05 | tags, "wrong-state", "a value variant holds the wrong alternative after %s", what); continue; }
                u64 val = x[i].alt == 1 ? Val<A>::canon(boost::get<A>(v)) : Val<B>::canon(boost::get<B>(v));
                if (val != x[i].val) violate(P05 | tags, "wrong-state", "a value variant holds the wrong value after %s", what);
                if (x[i].alt == 1) for (int k = 0; k < NR; ++k) if (boost::get<A>(&v) == a[k]) violate(P05 | P02, "copy-shares", "a value converted from a reference is not a copy after %s", what);
                ev(mix(v.which(), val));
            }
            if (y[i].ex) {
                if (y[i].alt == 1) ++objs;
                if (yat(i).which() != y[i].alt || (y[i].alt == 0 && boost::get<A>(&yat(i)) != a[y[i].r])
                    || (y[i].alt == 1 && Val<B>::canon(boost::get<B>(yat(i))) != y[i].val)) violate(P05 | tags, "wrong-state", "a reference variant changed after %s", what);
            }
        }
        if (!G.vio.set && obj_count() != objs) violate(P02, obj_count() > objs ? "leaked-object" : "missing-object", "%zu objects are alive, %zu expected, after %s", obj_count(), objs, what);
        (void)ok;
        G.cur_tags = save;
    }
    bool step(const Op& op) {
        int i = op.a % NS, j = op.b % NS, r = op.c % NR, k = op.mode % 13;
        std::snprintf(what, sizeof what, "reference variant operation %d", k);
        std::snprintf(G.where, sizeof G.where, "references %s", what);
        ev(0x7000 + k);
        bool ok = true;
        switch (k) {
        case 0: case 1: {                       // bind to an object
            kill(i);
            A& ref = *a[r];
            void* p = &s[i].m;
            ok = attempt(op, P05 | P02, [&] { new (p) V(ref); });
            if (ok && (G.op->ncopy || G.op->nmove)) violate(P05 | P06, "reference-copies", "%s copied or moved the object referred to", what);
            if (ok) { s[i].ex = true; s[i].alt = 0; s[i].r = r; }
            break;
        }
        case 2: {
            kill(i);
            const C& ref = *c[r];
            void* p = &s[i].m;
            ok = attempt(op, P05 | P02, [&] { new (p) V(ref); });
            if (ok && (G.op->ncopy || G.op->nmove)) violate(P05 | P06, "reference-copies", "%s copied or moved the object referred to", what);
            if (ok) { s[i].ex = true; s[i].alt = 2; s[i].r = r; }
            break;
        }
        case 3: {
            kill(i);
            B tmp(op.val, 0);
            void* p = &s[i].m;
            if (op.val & 1) ok = attempt(op, P05 | P02, [&] { new (p) V(std::move(tmp)); });
            else ok = attempt(op, P05 | P02, [&] { new (p) V(static_cast<const B&>(tmp)); });
            if (ok) { s[i].ex = true; s[i].alt = 1; s[i].val = Val<B>::canon_of(op.val); }
            break;
        }
        case 4: case 5: {                       // copy, move
            if (i == j || !s[j].ex) return false;
            kill(i);
            void* p = &s[i].m;
            if (k == 4) { const V& src = at(j); ok = attempt(op, P05 | P02, [&] { new (p) V(src); }); }
            else ok = attempt(op, P05 | P02 | P06, [&] { new (p) V(std::move(at(j))); });
            if (s[j].alt != 1 && (G.op->ncopy || G.op->nmove)) violate(P05 | P06, "reference-copies", "%s copied or moved the object referred to", what);
            if (k == 5 && G.op->ncopy) violate(P06, "rvalue-copied", "%s copied although it was given an rvalue", what);
            if (ok) { s[i].ex = true; s[i].alt = s[j].alt; s[i].r = s[j].r; s[i].val = s[j].val; }
            if (k == 5 && s[j].alt == 1 && G.op->nmove) s[j].val = Val<B>::moved();
            break;
        }
        case 6: if (!s[i].ex) return false; kill(i); break;
        case 7: {                               // write through the reference
            if (!s[i].ex || s[i].alt == 2) return false;
            Quiet q;
            if (s[i].alt == 0) { boost::get<A>(at(i)).v = op.val; av[s[i].r] = Val<A>::canon_of(op.val); }
            else { boost::get<B>(at(i)).v = op.val; s[i].val = Val<B>::canon_of(op.val); }
            break;
        }
        case 8: {                               // visit: the referent itself, with its own constness
            if (!s[i].ex) return false;
            See see;
            Seen o = {-1, 0, 0, 0};
            V& v = at(i);
            const V& cvr = v;
            int f = op.val % 3;
            ok = attempt(op, P07, [&] { if (f == 0) o = boost::apply_visitor(see, v); else if (f == 1) o = boost::apply_visitor(see, cvr); else o = v.apply_visitor(see); });
            int wantcat = s[i].alt == 2 ? 1 : s[i].alt == 0 ? 0 : f == 1;
            if (o.alt != s[i].alt || (target(i) && o.addr != target(i)) || o.val != expect(i) || see.calls != 1 || o.cat != wantcat || G.op->ncopy || G.op->nmove)
                violate(P07, "visitor-wrong-content", "%s did not pass the object referred to (alternative %d, category %d, expected %d)", what, s[i].alt, o.cat, wantcat);
            break;
        }
        case 9: {                               // convert to a value variant: copies the object
            int n = op.val & 1;
            if (!y[op.b & 1].ex) return false;
            xkill(n);
            YSlot& src = y[op.b & 1];
            V2& sv = yat(op.b & 1);
            void* p = &x[n].m;
            if (op.alt & 1) ok = attempt(op, P05 | P02, [&] { new (p) X(sv); });
            else ok = attempt(op, P05 | P02, [&] { new (p) X(static_cast<const V2&>(sv)); });
            if (ok) { x[n].ex = true; x[n].alt = src.alt == 0 ? 1 : 0; x[n].val = src.alt == 0 ? av[src.r] : src.val; }
            break;
        }
        case 10: {                              // narrower reference variant
            int n = op.val & 1;
            ykill(n);
            void* p = &y[n].m;
            if (op.alt & 3) { A& ref = *a[r]; ok = attempt(op, P05, [&] { new (p) V2(ref); }); if (ok) { y[n].ex = true; y[n].alt = 0; y[n].r = r; } }
            else { B tmp(op.val, 0); ok = attempt(op, P05, [&] { new (p) V2(std::move(tmp)); }); if (ok) { y[n].ex = true; y[n].alt = 1; y[n].val = Val<B>::canon_of(op.val); } }
            break;
        }
        case 11: {                              // reference variant from a narrower one: same referent
            int n = op.val & 1;
            if (!y[n].ex) return false;
            kill(i);
            void* p = &s[i].m;
            ok = attempt(op, P05, [&] { new (p) V(yat(n)); });
            if (y[n].alt == 0 && (G.op->ncopy || G.op->nmove)) violate(P05, "reference-copies", "%s copied or moved the object referred to", what);
            if (ok) { s[i].ex = true; s[i].alt = y[n].alt; s[i].r = y[n].r; s[i].val = y[n].val; }
            break;
        }
        default: {                              // compare, print
            if (!s[i].ex || !s[j].ex) return false;
            const V &p = at(i), &q = at(j);
            int ai = s[i].alt, aj = s[j].alt;
            std::int64_t vi = static_cast<std::int64_t>(expect(i)), vj = static_cast<std::int64_t>(expect(j));
            bool eq = ai == aj && vi == vj, lt = ai != aj ? ai < aj : vi < vj, g1 = false, g2 = false;
            ok = attempt(op, P09, [&] { g1 = p == q; g2 = p < q; });
            if (ok && (g1 != eq || g2 != lt)) violate(P09, "comparison", "comparing reference variants gave ==%d <%d, expected %d %d", g1, g2, eq, lt);
            break;
        }
        }
        sg = mix(mix(k, op.val & 3), mix(s[i].ex ? s[i].alt + 1 : 0, ok ? 0 : 1 + G.op->last_kind * 64 + G.op->first_ord));
        check(ok, P05);
        return true;
    }
    void finish() {
        for (int i = 0; i < NS; ++i) kill(i);
        xkill(0); xkill(1); ykill(0); ykill(1);
        std::snprintf(what, sizeof what, "destroying every reference variant");
        check(true, P02);
        if (G.vio.set) return;
        for (int i = 0; i < NR; ++i) { delete a[i]; delete c[i]; }
        if (obj_count()) violate(P02, "leaked-object", "%zu objects are still alive after every variant was destroyed", obj_count());
        else if (heap_tracked()) violate(P02, "leaked-memory", "%zu heap blocks are still held after every variant was destroyed", heap_tracked());
    }
};
IWorld* make() { return new RefWorld(); }
void gen_ops(u32* w) { for (int i = 0; i < O_N; ++i) w[i] = i == O_SPECIAL; }
CfgEntry entry = {"references", &make, &gen_ops, 0, 3, 0, 0};
Reg reg(entry);
}
