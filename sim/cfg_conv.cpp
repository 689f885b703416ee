#include "world.h"
using namespace sim;
namespace {
// Values converted on their way in: the type chosen and the value stored are what the language's overload resolution
// over the listed types gives, and a failing conversion leaves the target alone.
enum Colour { RED = 3, GREEN = 9 };
struct ToStr { int v; operator std::string() const { fault_point(K_CONV); return Val<std::string>::make(v); } };
typedef El<1> B1;
struct D1 : B1 { explicit D1(int x) : B1(x, 0) {} };
struct FromInt : El<2> {                       // implicit constructor that may fail
    FromInt(const ToStr& t) : El<2>(t.v, 0) { fault_point(K_CONV); }
};
typedef boost::variant<std::string, int, double> V1;
typedef boost::variant<int, B1, FromInt> V2;
typedef boost::variant<double, std::string> V3;

// variants none of whose types is listed by the target: each content is converted as if it had been given alone
typedef boost::variant<char, ToStr, float> W1;
typedef boost::variant<unsigned short, D1, ToStr> W2;
typedef boost::variant<const char*, long, ToStr> W3;
struct SrcCanon : boost::static_visitor<u64> {
    u64 operator()(const D1& x) const { Quiet q; u64 w = G.walk; u64 c = Val<B1>::canon(x); G.walk = w; return c; }
    u64 operator()(const ToStr& x) const { return x.v; }
    u64 operator()(const char* x) const { return reinterpret_cast<u64>(x); }
    template <class X> u64 operator()(const X& x) const { return static_cast<u64>(x); }
};
// the oracle: plain overload sets
template <class T, int I> struct Ov1 { static std::integral_constant<int, I> pick(const T&); static std::integral_constant<int, I> pick(T&&); };
template <class A, class B, class C> struct Ov : Ov1<A, 0>, Ov1<B, 1>, Ov1<C, 2> { using Ov1<A, 0>::pick; using Ov1<B, 1>::pick; using Ov1<C, 2>::pick; };
struct None {};
template <class V> struct OvOf;
template <> struct OvOf<V1> : Ov<std::string, int, double> {};
template <> struct OvOf<V2> : Ov<int, B1, FromInt> {};
template <> struct OvOf<V3> : Ov<double, std::string, None> {};
template <class V> struct LOf;
template <> struct LOf<V1> { typedef TL<std::string, int, double> type; };
template <> struct LOf<V2> { typedef TL<int, B1, FromInt> type; };
template <> struct LOf<V3> { typedef TL<double, std::string> type; };
}
namespace sim { template <> struct Val<FromInt> : ValEl<FromInt> { static FromInt make(int v) { ToStr t = {v}; return FromInt(t); } }; }
namespace {
const int NSL = 3;
template <class V> struct Slots {
    typedef typename LOf<V>::type L;
    struct S { bool ex; int alt; u64 val; unsigned char lo[32]; typename std::aligned_storage<sizeof(V), 16>::type m; unsigned char hi[32]; } s[NSL];
    Slots() { for (int i = 0; i < NSL; ++i) { s[i].ex = false; std::memset(s[i].lo, 0x5A, 32); std::memset(s[i].hi, 0xA5, 32); std::memset(&s[i].m, 0xEE, sizeof(V)); } }
    V& at(int i) { return *reinterpret_cast<V*>(&s[i].m); }
    void kill(int i) {
        if (!s[i].ex) return;
        G.op->reset(); G.op->active = true; G.tracking = true;
        at(i).~V();
        G.op->active = false; G.tracking = false;
        s[i].ex = false;
    }
    u64 objs() {
        u64 n = 0;
        for (int i = 0; i < NSL; ++i) if (s[i].ex) { G.walk = 0; Observer<L> ob; boost::apply_visitor(ob, static_cast<const V&>(at(i))); n += G.walk; }
        return n;
    }
    void check(const char* what, bool ok) {
        u32 t = ok ? P05 : P03 | P05;
        for (int i = 0; i < NSL; ++i) {
            for (int k = 0; k < 32; ++k) if (s[i].lo[k] != 0x5A || s[i].hi[k] != 0xA5) { violate(P02, "redzone", "memory outside a variant was written by %s", what); break; }
            if (!s[i].ex) continue;
            const V& v = at(i);
            Observer<L> ob;
            int w = v.which();
            if (w < 0 || w >= L::size) { violate(P01, "which-out-of-range", "which() is out of range after %s", what); return; }
            Obs o = boost::apply_visitor(ob, v);
            if (o.alt != w || v.type() != *o.ti) violate(P01 | P07, "which-vs-visit", "which(), type() and content disagree after %s", what);
            else if (o.alt != s[i].alt || o.canon != s[i].val)
                violate(t, "wrong-state", "slot %d holds alternative %d value %lld after %s %s, should be %d value %lld", i, o.alt, (long long)o.canon,
                        ok ? "successful" : "failed", what, s[i].alt, (long long)s[i].val);
            ev(mix(o.alt, o.canon));
        }
    }
};

class ConvWorld : public IWorld {
    Slots<V1> s1; Slots<V2> s2; Slots<V3> s3;
    u64 sg; char what[96];
    template <class T> static u64 quiet_canon(const T& x) { Quiet q; u64 w = G.walk; u64 c = Val<T>::canon(x); G.walk = w; return c; }

    // X: argument type as passed; T: the type overload resolution selects
    template <class V, class X> bool put(Slots<V>& st, const Op& op, const char* nm, X&& x) {
        typedef typename LOf<V>::type L;
        const int alt = decltype(OvOf<V>::pick(std::declval<X>()))::value;
        typedef typename At<alt, L>::type T;
        int i = op.a % NSL;
        bool asg = op.alt & 1;
        if (asg && !st.s[i].ex) return false;
        if (!asg) st.kill(i);
        std::snprintf(what, sizeof what, "%s from %s", asg ? "assignment" : "construction", nm);
        std::snprintf(G.where, sizeof G.where, "conversions %s", what);
        u64 c;
        { Quiet q; const T expected(x); c = quiet_canon(expected); }
        bool ok;
        V* p = &st.at(i);
        bool same = true;
        if (asg) ok = attempt(op, P05 | P03 | P01, [&] { same = &(*p = std::forward<X>(x)) == p; });
        else ok = attempt(op, P05 | P01, [&] { new (static_cast<void*>(p)) V(std::forward<X>(x)); });
        if (!same) violate(P05, "wrong-reference-returned", "%s did not return its target", what);
        if (ok) { st.s[i].ex = true; st.s[i].alt = alt; st.s[i].val = c; }
        else if (asg && !st.s[i].ex) {}
        else if (asg) {
            // types that can fail both to copy and to move may cost the old value: a plain alternative then
            typedef typename At<0, L>::type A0;
            if (!std::is_nothrow_move_constructible<T>::value && std::is_same<A0, int>::value && st.at(i).which() == 0) {
                if (int* q = boost::relaxed_get<int>(&st.at(i))) *q = 0;
                st.s[i].alt = 0; st.s[i].val = 0;
            }
        }
        sg = mix(mix(asg, alt), mix(st.s[i].ex ? st.s[i].alt : 9, ok ? 0 : 1 + G.op->last_kind * 64 + G.op->first_ord));
        for (const char* q = nm; *q; ++q) sg = mix(sg, *q);
        return true;
    }
    template <class V> struct Expect : boost::static_visitor<void> {
        int alt; u64 val; bool nt;
        Expect() : alt(-1), val(0), nt(false) {}
        template <class X> void operator()(const X& x) {
            const int k = decltype(OvOf<V>::pick(std::declval<const X&>()))::value;
            typedef typename At<k, typename LOf<V>::type>::type T;
            Quiet q; const T expected(x);
            alt = k; val = quiet_canon(expected); nt = std::is_nothrow_move_constructible<T>::value;
        }
    };
    template <class V, class W> bool putv(Slots<V>& st, const Op& op, const char* nm, W& src) {
        typedef typename LOf<V>::type L;
        int i = op.a % NSL, form = op.b % 4;
        bool asg = op.alt & 1;
        if (asg && !st.s[i].ex) return false;
        if (!asg) st.kill(i);
        static const char* const fn[] = {"const variant", "variant", "rvalue variant", "const rvalue variant"};
        std::snprintf(what, sizeof what, "%s from a %s holding %s", asg ? "assignment" : "construction", fn[form], nm);
        std::snprintf(G.where, sizeof G.where, "conversions %s", what);
        const W& csrc = src;
        Expect<V> e; boost::apply_visitor(e, csrc);
        u64 before = boost::apply_visitor(SrcCanon(), csrc);
        int sw = src.which();
        V* p = &st.at(i);
        bool ok, same = true;
        u32 t = P05 | P03 | P01;
        if (asg) switch (form) {
            case 0: ok = attempt(op, t, [&] { same = &(*p = csrc) == p; }); break;
            case 1: ok = attempt(op, t, [&] { same = &(*p = src) == p; }); break;
            case 2: ok = attempt(op, t, [&] { same = &(*p = std::move(src)) == p; }); break;
            default: ok = attempt(op, t, [&] { same = &(*p = std::move(csrc)) == p; });
        }
        else switch (form) {
            case 0: ok = attempt(op, t, [&] { new (static_cast<void*>(p)) V(csrc); }); break;
            case 1: ok = attempt(op, t, [&] { new (static_cast<void*>(p)) V(src); }); break;
            case 2: ok = attempt(op, t | P06, [&] { new (static_cast<void*>(p)) V(std::move(src)); });
                    if (G.op->ncopy) violate(P06, "rvalue-copied", "%s copied although it was given an rvalue", what);
                    break;
            default: ok = attempt(op, t, [&] { new (static_cast<void*>(p)) V(std::move(csrc)); });
        }
        if (!same) violate(P05, "wrong-reference-returned", "%s did not return its target", what);
        if (src.which() != sw) violate(P05 | P06, "source-changed", "%s changed the type its source holds", what);
        else if (form != 2 && boost::apply_visitor(SrcCanon(), csrc) != before) violate(P05 | (ok ? 0u : P03), "source-changed", "%s changed its source", what);
        if (ok) { st.s[i].ex = true; st.s[i].alt = e.alt; st.s[i].val = e.val; }
        else if (asg && !e.nt && std::is_same<typename At<0, L>::type, int>::value && st.at(i).which() == 0) {
            if (int* q = boost::relaxed_get<int>(&st.at(i))) *q = 0;
            st.s[i].alt = 0; st.s[i].val = 0;
        }
        sg = mix(mix(asg + 2 * form, e.alt), mix(st.s[i].ex ? st.s[i].alt : 9, ok ? 0 : 1 + G.op->last_kind * 64 + G.op->first_ord));
        for (const char* q = nm; *q; ++q) sg = mix(sg, *q);
        return true;
    }
    template <class W, class X> static void quiet_make(typename std::aligned_storage<sizeof(W), 16>::type& m, const X& x) { Quiet q; new (static_cast<void*>(&m)) W(x); }
    template <class V, class W, class X> bool via(Slots<V>& st, const Op& op, const char* nm, const X& x) {
        typename std::aligned_storage<sizeof(W), 16>::type m;
        quiet_make<W>(m, x);
        W& w = *reinterpret_cast<W*>(&m);
        bool did = putv(st, op, nm, w);
        { Quiet q; w.~W(); }
        return did;
    }
public:
    ConvWorld() : sg(0) { what[0] = 0; }
    u64 sig() const { return sg; }
    void verify(bool ok) {
        Quiet q;
        u32 save = G.cur_tags;
        G.cur_tags |= P05 | (ok ? 0u : P03);
        s1.check(what, ok); s2.check(what, ok); s3.check(what, ok);
        if (!G.vio.set && obj_count() != s1.objs() + s2.objs() + s3.objs())
            violate(P02, "leaked-object", "%zu objects are alive, %zu expected, after %s", obj_count(), (std::size_t)(s1.objs() + s2.objs() + s3.objs()), what);
        G.cur_tags = save;
    }
    bool step(const Op& op) {
        int k = op.mode % 42;
        char buf[64];
        int v = op.val;
        ev(0x7100 + k);
        std::string str, cstr;
        { Quiet q; str = Val<std::string>::make(v); std::snprintf(buf, sizeof buf, "%s", str.c_str()); cstr = str; }
        const char* cc = buf;
        const std::string& cs = cstr;
        ToStr ts = {v};
        const ToStr cts = {v};
        B1 b(v, 0);
        D1 d(v);
        bool did = false;
        switch (k) {
        case 0: did = put(s1, op, "const char*", cc); break;
        case 1: did = put(s1, op, "char array", buf); break;
        case 2: did = put(s1, op, "string literal", "a literal that does not fit the small buffer"); break;
        case 3: did = put(s1, op, "std::string", str); break;
        case 4: did = put(s1, op, "const std::string", cs); break;
        case 5: did = put(s1, op, "std::string rvalue", std::move(str)); break;
        case 6: did = put(s1, op, "short", static_cast<short>(v)); break;
        case 7: did = put(s1, op, "char", static_cast<char>(v)); break;
        case 8: did = put(s1, op, "unsigned char", static_cast<unsigned char>(v)); break;
        case 9: did = put(s1, op, "bool", (v & 1) != 0); break;
        case 10: did = put(s1, op, "float", static_cast<float>(v) * 2); break;
        case 11: did = put(s1, op, "enum", v & 1 ? RED : GREEN); break;
        case 12: did = put(s1, op, "int", static_cast<int>(v)); break;
        case 13: { const int ci = v; did = put(s1, op, "const int", ci); break; }
        case 14: did = put(s1, op, "double", v * 2.0); break;
        case 15: did = put(s1, op, "signed char", static_cast<signed char>(v)); break;
        case 16: did = put(s2, op, "derived object", d); break;
        case 17: did = put(s2, op, "const derived object", static_cast<const D1&>(d)); break;
        case 18: did = put(s2, op, "derived rvalue", std::move(d)); break;
        case 19: did = put(s2, op, "base object", b); break;
        case 20: did = put(s2, op, "convertible object", ts); break;
        case 21: did = put(s2, op, "const convertible object", cts); break;
        case 22: did = put(s2, op, "unsigned short", static_cast<unsigned short>(v)); break;
        case 23: did = put(s3, op, "int to double", static_cast<int>(v)); break;
        case 24: did = put(s3, op, "long to double", static_cast<long>(v)); break;
        case 25: did = put(s3, op, "const char*", cc); break;
        case 26: did = put(s1, op, "object with conversion function", ts); break;
        case 27: did = put(s3, op, "const object with conversion function", cts); break;
        case 28: did = put(s1, op, "unsigned short", static_cast<unsigned short>(v)); break;
        case 29: did = via<V1, W1>(s1, op, "a char", static_cast<char>(v)); break;
        case 30: did = via<V1, W1>(s1, op, "a convertible object", ts); break;
        case 31: did = via<V1, W1>(s1, op, "a float", v * 2.0f); break;
        case 32: did = via<V2, W2>(s2, op, "an unsigned short", static_cast<unsigned short>(v)); break;
        case 33: case 34: did = via<V2, W2>(s2, op, "a derived object", d); break;
        case 35: case 36: did = via<V2, W2>(s2, op, "a convertible object", ts); break;
        case 37: did = via<V3, W3>(s3, op, "a const char*", cc); break;
        case 38: did = via<V3, W3>(s3, op, "a long", static_cast<long>(v)); break;
        case 39: did = via<V3, W3>(s3, op, "an object with conversion function", ts); break;
        default: {                       // destroy or copy around
            int i = op.a % NSL, j = op.b % NSL;
            std::snprintf(what, sizeof what, "copying");
            if (i == j || !s1.s[j].ex) return false;
            s1.kill(i);
            V1* p = &s1.at(i);
            bool ok = attempt(op, P05, [&] { new (static_cast<void*>(p)) V1(static_cast<const V1&>(s1.at(j))); });
            if (ok) { s1.s[i].ex = true; s1.s[i].alt = s1.s[j].alt; s1.s[i].val = s1.s[j].val; }
            did = true;
        }
        }
        if (!did) return false;
        bool ok = G.op->fired == 0;
        { Quiet q; if (str.capacity() > 1000) std::abort(); }
        // the locals above are tracers too
        u64 extra = 2;
        (void)extra;
        pending = ok;
        return true;
    }
    bool pending;
    void finish() {
        for (int i = 0; i < NSL; ++i) { s1.kill(i); s2.kill(i); s3.kill(i); }
        if (obj_count()) violate(P02, "leaked-object", "%zu objects are still alive after every variant was destroyed", obj_count());
        else if (heap_tracked()) violate(P02, "leaked-memory", "%zu heap blocks are still held after every variant was destroyed", heap_tracked());
        heap_check("at the end of the run");
    }
};
class ConvStep : public IWorld {       // checks after the locals of a step are gone
    ConvWorld w;
public:
    bool step(const Op& op) { bool d = w.step(op); if (d && !G.vio.set) w.verify(w.pending); return d; }
    void finish() { w.finish(); }
    u64 sig() const { return w.sig(); }
};
IWorld* make() { return new ConvStep(); }
void gen_ops(u32* w) { for (int i = 0; i < O_N; ++i) w[i] = i == O_SPECIAL; }
CfgEntry entry = {"conversions", &make, &gen_ops, 0, 3, 0, 0};
Reg reg(entry);
}
