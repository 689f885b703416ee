// The simulated world: a few variants in guarded memory, a reference model of each, and the operations on them.
#ifndef SIM_WORLD_H
#define SIM_WORLD_H
#include "elem.h"
#include <algorithm>
#include <memory>
#include <typeinfo>
#include <utility>
#include <boost/variant.hpp>

#ifndef SIM_GROUPS
#define SIM_GROUPS 0xffff
#endif
#define GR_VISIT 1
#define GR_GET 2
#define GR_CMP 4
#define GR_STREAM 8
#define GR_CONV 16
#define GR_CONT 32
#define GR_MULTI 64
#define GR_REC 128
#define GR_VISIT2 256

namespace sim {

// ---------------------------------------------------------------- type lists
template <class... Ts> struct TL { static const int size = sizeof...(Ts); };
template <int I, class L> struct At;
template <class T, class... Ts> struct At<0, TL<T, Ts...> > { typedef T type; };
template <int I, class T, class... Ts> struct At<I, TL<T, Ts...> > : At<I - 1, TL<Ts...> > {};
template <class T, class L> struct IndexOf;
template <class T, class... Ts> struct IndexOf<T, TL<T, Ts...> > { static const int value = 0; };
template <class T, class U, class... Ts> struct IndexOf<T, TL<U, Ts...> > { static const int value = 1 + IndexOf<T, TL<Ts...> >::value; };

template <class L, class Fn, int I, bool End> struct WithType {
    static void go(int alt, Fn& fn) {
        if (alt == I) fn.template operator()<typename At<I, L>::type, I>();
        else WithType<L, Fn, I + 1, I + 1 == L::size>::go(alt, fn);
    }
};
template <class L, class Fn, int I> struct WithType<L, Fn, I, true> { static void go(int, Fn&) {} };
template <class L, class Fn> void with_type(int alt, Fn& fn) { WithType<L, Fn, 0, L::size == 0>::go(alt, fn); }

// ---------------------------------------------------------------- what is known about each alternative
struct AltInfo {
    int tag;
    bool nt_copy, nt_move, nt_def, strong, simple, pod, wrapper, blank, fp;
    u64 moved, defv;
    std::size_t size, align;
};
template <class T> struct is_wrapper : std::false_type {};
template <class T> struct is_wrapper<boost::recursive_wrapper<T> > : std::true_type {};
template <class T> struct unwrapped { typedef T type; };
template <class T> struct unwrapped<boost::recursive_wrapper<T> > { typedef T type; };
template <class T, bool W> struct NT {       // a wrapped alternative is never nothrow in any respect
    static const bool c = false, m = false, d = false;
};
template <class T> struct NT<T, false> {
    static const bool c = std::is_nothrow_copy_constructible<T>::value, m = std::is_nothrow_move_constructible<T>::value,
                      d = std::is_nothrow_default_constructible<T>::value;
};
template <class I> AltInfo alt_info() {      // I: the alternative as listed (maybe a recursive_wrapper)
    typedef typename unwrapped<I>::type T;
    typedef NT<T, is_wrapper<I>::value> N;
    AltInfo a;
    a.tag = Val<T>::tag();
    a.nt_copy = N::c; a.nt_move = N::m; a.nt_def = N::d;
    a.strong = Val<T>::strong; a.simple = Val<T>::simple; a.pod = Val<T>::pod; a.fp = Val<T>::fp;
    a.wrapper = is_wrapper<I>::value;
    a.blank = std::is_same<T, boost::blank>::value;
    a.moved = Val<T>::moved(); a.defv = Val<T>::defv();
    a.size = sizeof(T); a.align = std::alignment_of<T>::value;
    return a;
}
template <class L> struct Table;
template <class... Is> struct Table<TL<Is...> > {
    static const AltInfo* get() {
        static const AltInfo t[] = {alt_info<Is>()...};
        return t;
    }
};
template <class L> struct Unwrap;
template <class... Is> struct Unwrap<TL<Is...> > { typedef TL<typename unwrapped<Is>::type...> type; };

// ---------------------------------------------------------------- observing a variant
struct Obs { int alt; const void* addr; u64 canon; const std::type_info* ti; };
template <class L> struct Observer : boost::static_visitor<Obs> {
    mutable int calls;
    Observer() : calls(0) {}
    template <class T> Obs operator()(const T& x) const {
        ++calls;
        Obs o;
        o.alt = IndexOf<T, L>::value;
        o.addr = static_cast<const void*>(std::addressof(x));
        o.canon = Val<T>::canon(x);
        o.ti = &typeid(T);
        return o;
    }
};

// ---------------------------------------------------------------- operations
enum OpCode {
    O_CTOR_DEF, O_CTOR_VAL, O_CTOR_COPY, O_CTOR_MOVE, O_DTOR, O_ASG_COPY, O_ASG_MOVE, O_ASG_VAL, O_SWAP, O_MUTATE,
    O_F_CTOR, O_F_ASG, O_CTOR_CONV, O_ASG_CONV, O_CTOR_SRC, O_ASG_SRC,
    O_VISIT1, O_VISIT2, O_VISITN, O_GET, O_CMP, O_HASH, O_STREAM, O_CONT, O_NEST, O_SPECIAL, O_N
};
extern const char* const op_name[O_N];

struct Op {
    int code, a, b, c, mode, alt, val;
    Fault f;
};

// ---------------------------------------------------------------- a set of variants of one type
struct Model { bool ex; int alt; u64 val; bool heap_ok; bool heap; bool survivor; const void* addr; };   // survivor: an operation on it failed
struct Out { int alt; bool any; u64 val; };
struct Allowed {
    bool touched;
    int n;
    Out o[24];
    void add(int alt, u64 val) { if (n < 24) { o[n].alt = alt; o[n].any = false; o[n].val = val; ++n; } touched = true; }
    void add_any(int alt) { if (n < 24) { o[n].alt = alt; o[n].any = true; o[n].val = 0; ++n; } touched = true; }
    bool has_any(int alt) const {
        for (int i = 0; i < n; ++i) if (o[i].alt == alt && o[i].any) return true;
        return false;
    }
    bool has(int alt, u64 val) const {
        for (int i = 0; i < n; ++i) if (o[i].alt == alt && (o[i].any || o[i].val == val)) return true;
        return false;
    }
};

template <class Vt, class IL, int NS> class SlotSet {
public:
    typedef Vt V;
    typedef IL Internal;
    typedef typename Unwrap<IL>::type L;
    static const int nalts = IL::size;
    static const int RZ = 64;
    struct Mem {
        unsigned char lo[RZ];
        typename std::aligned_storage<sizeof(V), std::alignment_of<V>::value>::type v;
        unsigned char hi[RZ];
    };
    Mem mem[NS];
    Model m[NS];
    Allowed al[NS];
    const AltInfo* info;
    bool has_fb, has_blank;

    SlotSet() : info(Table<IL>::get()), has_fb(false), has_blank(false) {
        for (int i = 0; i < NS; ++i) {
            std::memset(&m[i], 0, sizeof m[i]);
            fill(i);
        }
        for (int i = 0; i < nalts; ++i) { if (info[i].nt_def) has_fb = true; if (info[i].blank) has_blank = true; }
    }
    static unsigned char pat(int k) { return static_cast<unsigned char>(0x5A + k * 7); }
    void fill(int i) {
        for (int k = 0; k < RZ; ++k) { mem[i].lo[k] = pat(k); mem[i].hi[k] = pat(k + 3); }
        std::memset(&mem[i].v, 0xA5, sizeof(V));
    }
    bool redzone_ok(int i) const {
        for (int k = 0; k < RZ; ++k) if (mem[i].lo[k] != pat(k) || mem[i].hi[k] != pat(k + 3)) return false;
        return true;
    }
    V& at(int i) { return *static_cast<V*>(static_cast<void*>(&mem[i].v)); }
    const V& cat(int i) { return at(i); }
    void* raw(int i) { return &mem[i].v; }
    bool inplace(int i, const void* p) const {
        const char* b = reinterpret_cast<const char*>(&mem[i].v);
        const char* q = static_cast<const char*>(p);
        return q >= b && q < b + sizeof(V);
    }
    void begin_op() { for (int i = 0; i < NS; ++i) { al[i].touched = false; al[i].n = 0; } }

    // What a slot may hold after an assignment of (alt,val) to it failed.
    void allow_failed_assign(int i, int alt, bool strong_same) {
        const Model& s = m[i];
        if (s.alt == alt && !info[alt].strong && !strong_same) al[i].add_any(alt);
        al[i].add(s.alt, s.val);
        // only content that can fail to be put in place may cost the old value
        if (has_fb && s.alt != alt && !info[alt].nt_copy && !info[alt].nt_move) allow_fallback(i);
        al[i].touched = true;
    }
    void allow_fallback(int i) {
        for (int k = 0; k < nalts; ++k)
            if (info[k].nt_def && (!has_blank || info[k].blank)) { if (info[k].pod) al[i].add_any(k); else al[i].add(k, info[k].defv); }
    }
    // What the source of a move may hold.
    void allow_moved_from(int i, int alt, u64 val) {
        if (!info[alt].simple) { al[i].add_any(alt); return; }
        al[i].add(alt, val);
        al[i].add(alt, info[alt].moved);
    }

    struct SetFn {
        V* v; int val;
        template <class T, int I> void operator()() { if (v->which() == I) if (T* p = boost::relaxed_get<T>(v)) Val<T>::set(*p, val); }
    };

    Obs observe(int i, const char* when) {
        Observer<L> ob;
        u32 save = G.cur_tags;
        G.cur_tags |= P07;             // what visitation hands out must be the live content
        Obs o = boost::apply_visitor(ob, cat(i));
        G.cur_tags = save;
        if (ob.calls != 1) violate(P07 | P01, "observe-visit-count", "visiting ran the visitor %d times %s", ob.calls, when);
        return o;
    }

    // Check slot i against the model (or the allowed outcomes if the operation touched it), and adopt what is seen.
    void verify(int i, bool failed, u32 tags, const char* what) {
        if (!redzone_ok(i))
            violate(P02 | P12, "redzone", "memory outside the variant was written by %s", what);
        Model& s = m[i];
        if (!s.ex) return;
        V& v = at(i);
        int w = v.which();
        if (w < 0 || w >= nalts) {
            violate(P01 | tags, "which-out-of-range", "which() is out of range after %s", what);
            return;
        }
        bool changed = al[i].touched;
        if (failed && changed && info[w].pod && al[i].has_any(w)) {   // a plain fallback value is indeterminate: give it one
            SetFn fn = {&v, 0};
            with_type<L>(w, fn);
        }
        Obs o = observe(i, what);
        if (G.vio.set) { G.vio.tags |= failed ? P03 : 0; return; }
        if (o.alt != w)
            { violate(P01 | P07 | P05 | tags, "which-vs-visit", "which() and the visited content disagree after %s", what); return; }
        if (v.type() != *o.ti) { violate(P01 | P07 | tags, "type-vs-visit", "type() and the visited content disagree after %s", what); return; }
        if (v.empty()) { violate(P01, "empty", "empty() is true after %s", what); return; }
        if (reinterpret_cast<std::uintptr_t>(o.addr) % info[w].align)
            violate(P12 | P02, "misaligned", "content is misaligned after %s", what);
        if (changed) {
            if (!al[i].has(o.alt, o.canon)) {
                bool alt_ok = false;
                for (int k = 0; k < al[i].n; ++k) if (al[i].o[k].alt == o.alt) alt_ok = true;
                violate((failed ? P03 : P05) | tags, failed ? "wrong-state-after-failure" : "wrong-state",
                        "slot %d holds alternative %d value %lld after %s %s (was alternative %d value %lld; %s)", i, o.alt,
                        (long long)o.canon, failed ? "failed" : "successful", what, s.alt, (long long)s.val,
                        alt_ok ? "value is not one it may hold" : "alternative is not one it may hold");
                return;
            }
        } else if (o.alt != s.alt || o.canon != s.val) {
            violate((failed ? P03 : P05) | P01 | tags, "bystander-changed",
                    "slot %d, not a target of %s, changed from alternative %d value %lld to %d value %lld", i, what, s.alt,
                    (long long)s.val, o.alt, (long long)o.canon);
            return;
        } else if (o.addr != s.addr) {
            violate(P12 | P05, "bystander-moved", "content of slot %d, not a target of %s, changed its address", i, what);
            return;
        }
        bool heap = !inplace(i, o.addr);
        if (!info[w].wrapper && heap && info[w].size) {
            probe(PR_HEAP);
            if (has_fb || info[w].nt_copy || info[w].nt_move || !s.heap_ok) {
                violate(P12, "unexpected-heap-content",
                        "content of slot %d is outside the variant after %s although %s", i, what,
                        has_fb ? "a nothrow-default-constructible alternative exists"
                               : s.heap_ok ? "its type is nothrow copyable or movable" : "no assignment to it failed");
                return;
            }
        } else if (info[w].wrapper && !heap) {
            violate(P12 | P10, "wrapped-content-inline", "recursively wrapped content is stored inside the variant after %s", what);
            return;
        }
        if (changed && failed && has_fb && o.alt != s.alt) probe(PR_FALLBACK);
        s.alt = o.alt; s.val = o.canon; s.addr = o.addr; s.heap = heap && !info[w].wrapper;
        if (changed && failed) s.survivor = true;
        if (!info[w].wrapper && !heap) s.heap_ok = false;        // in place again: only another failure may change that
    }

    // number of heap blocks the contents account for (only meaningful for contents that own no memory themselves)
    void blocks(std::size_t& lo, std::size_t& hi) const {
        for (int i = 0; i < NS; ++i)
            if (m[i].ex) {
                bool w = info[m[i].alt].wrapper;
                if (m[i].heap || w) { ++lo; ++hi; }
                if (w && m[i].heap_ok && !has_fb) ++hi;     // a wrapper may itself be on the heap after a failure
            }
    }
};

// ---------------------------------------------------------------- running one operation under faults
// Runs one operation of the system under test: the fault of the plan is armed, what it lets out is classified. The operation runs
// normally, inside an exception handler, or in a destructor while the stack is being unwound (all caught here again).
template <class Fn> struct Attempt {
    Fn& fn; OpState& o;
    bool threw; u64 got; int kind;
    static void go(void* p) {
        Attempt& t = *static_cast<Attempt*>(p);
        OpState& o = t.o;
        G.tracking = true;
        o.active = true;
        try {
            t.fn();
            o.active = false;
        } catch (const Boom& e) { o.active = false; t.threw = true; t.got = e.serial; t.kind = 0;
        } catch (const BoomStd& e) { o.active = false; t.threw = true; t.got = e.serial; t.kind = 1;
        } catch (const BoomAlloc& e) { o.active = false; t.threw = true; t.got = e.serial; t.kind = 2;
        } catch (const BoomBase&) { o.active = false; t.threw = true; t.kind = 5;
        } catch (const std::exception&) { o.active = false; t.threw = true; t.kind = 6;
        } catch (...) { o.active = false; t.threw = true; t.kind = 7; }
        G.tracking = false;
    }
};
template <class Fn> bool attempt(const Op& op, u32 tags, Fn fn) {
    OpState& o = *G.op;
    o.reset();
    o.f = op.f;
    G.cur_tags = tags;
    Attempt<Fn> t = {fn, o, false, 0, -1};
    in_context(G.yield ? 0 : op.f.exc / 3, &Attempt<Fn>::go, &t);
    const bool threw = t.threw;
    const u64 got = t.got;
    const int kind = t.kind;
    G.tracking = false;
    ++G.st.ops;
    if (o.fired) ++G.st.ops_failed;
    ev(threw ? 0x5001 + kind : 0x5000);
    if (threw && kind > 2)
        violate(P04 | (o.fired ? 0u : tags), o.fired ? "exception-replaced" : "spurious-exception",
                "%s let out an exception that was not the injected one", G.where);
    else if (threw && (!o.fired || got < o.ser_lo || got > o.ser_hi))
        violate(P04, "wrong-exception", "%s let out an exception of another operation", G.where);
    else if (threw && (kind != static_cast<int>(o.last_exc)) && o.ser_lo == o.ser_hi)
        violate(P04, "exception-type-changed", "%s let out the injected exception as another type", G.where);
    else if (!threw && o.fired)
        violate(P04 | P03 | tags, "exception-swallowed", "%s reported success although an operation inside it failed", G.where);
    return !threw;
}

struct Result { u32 faults; };

// ---------------------------------------------------------------- interface the driver sees
struct IWorld {
    virtual ~IWorld() {}
    virtual bool step(const Op& op) = 0;     // false: nothing to do
    virtual void finish() = 0;
    virtual u64 sig() const = 0;
};
struct GenParams { u32 w[O_N]; u32 fault_pct; u32 sticky_pct; u32 mask_mode; u32 len; };
struct CfgEntry {
    const char* name;
    IWorld* (*make)();
    void (*gen_ops)(u32* w);                 // zero the weights of operations this configuration lacks
    u32 tags;
    int nalts;
    int conc;                                // simulated threads: longer plans with preemption entries
    CfgEntry* next;
};
extern CfgEntry* g_cfgs;
struct Reg { explicit Reg(CfgEntry& e) { e.next = g_cfgs; g_cfgs = &e; } };

template <long B> struct Bool : std::integral_constant<bool, B != 0> {};

const int NV = 4, NF = 2;

#if SIM_GROUPS & GR_VISIT
// A visitor that replaces the content of the variant it is visiting.
template <class V, bool Assign> struct Within : boost::static_visitor<> {
    V* v; const V* from; V* with; int calls; const V* back;
    Within(V* a, const V* b, V* c) : v(a), from(b), with(c), calls(0), back(0) {}
    template <class X> void operator()(X&) { ++calls; go(std::integral_constant<bool, Assign>(), v); }
    template <class T> void go(std::true_type, T* t) { back = &(*t = *from); }
    template <class T> void go(std::false_type, T* t) { t->swap(*with); }
};
#endif

// ---------------------------------------------------------------- the world
template <class Cfg> class World : public IWorld {
public:
    typedef typename Cfg::V V;
    typedef typename Cfg::alts IL;
    typedef SlotSet<V, IL, NV> S;
    typedef typename S::L L;
    typedef typename Cfg::F FV;
    typedef typename Cfg::falts FIL;
    typedef SlotSet<FV, FIL, NF> SF;
    typedef typename SF::L FL;

    S s;
    SF f;
    bool exact, alone;
    bool any_failed;
    u64 sg;
    int lm;                 // form of the running operation
    char what[160];

    const AltInfo& info(int alt) const { return s.info[alt]; }

    void begin(const Op& op, const char* extra) {
        std::snprintf(what, sizeof what, "%s%s", op_name[op.code], extra);
        std::snprintf(G.where, sizeof G.where, "%s %s", Cfg::name(), what);
        s.begin_op();
        f.begin_op();
        int a = op.a % NV, b = op.b % NV;
        // what goes wrong with the survivor of a failed operation is also a broken promise about failures
        G.op_tags = alone && ((s.m[a].ex && s.m[a].survivor) || (s.m[b].ex && s.m[b].survivor) || (f.m[op.b % NF].ex && f.m[op.b % NF].survivor)) ? P03 : 0u;
        ev(0x9000 + op.code);
    }

    void sign(const Op& op, bool ok, int dalt, int salt, bool dheap, bool sheap) {
        const OpState& o = *G.op;
        u64 h = mix(op.code, lm);
        h = mix(h, dalt * 64 + salt);
        h = mix(h, (dheap ? 2 : 0) + (sheap ? 1 : 0));
        h = mix(h, ok ? 0 : 1 + o.last_kind * 64 + (o.first_ord < 40 ? o.first_ord : 40));
        sg = h;
    }

    // after every operation: all slots, all lifetimes, all memory
    void check(bool ok, u32 tags) {
        Quiet q;
        if (!ok) { any_failed = true; tags |= P03; }
        u32 save = G.cur_tags;
        G.cur_tags |= tags | (any_failed ? P03 : 0u);
        G.walk = 0;
        for (int i = 0; i < NV; ++i) { s.verify(i, !ok, tags & ~P03, what); if (G.vio.set) return; }
        for (int i = 0; i < NF; ++i) { f.verify(i, !ok, tags & ~P03, what); if (G.vio.set) return; }
        if (!alone) {                        // other simulated threads are in the middle of something: balance is checked at the end
            for (int i = 0; i < NV; ++i) if (s.m[i].ex) ev(mix(s.m[i].alt, s.m[i].val));
            G.cur_tags = save;
            return;
        }
        if (obj_count() != G.walk) {
            violate(P02 | P01 | (ok ? 0u : P03), obj_count() > G.walk ? "leaked-object" : "missing-object",
                    "%zu objects are alive but the variants account for %zu after %s", obj_count(), (std::size_t)G.walk, what);
            return;
        }
        std::size_t lo = 0, hi = 0;
        s.blocks(lo, hi);
        f.blocks(lo, hi);
        if (exact && (heap_tracked() < lo || heap_tracked() > hi)) {
            violate(P02 | P12, heap_tracked() > hi ? "leaked-memory" : "missing-memory",
                    "%zu heap blocks are held but the variants account for %zu to %zu after %s", heap_tracked(), lo, hi, what);
            return;
        }
        for (int i = 0; i < NV; ++i) if (s.m[i].ex) ev(mix(s.m[i].alt, s.m[i].val));
        deep_checks();
        G.cur_tags = save;
    }
    void deep_checks();

    // a variant of nothrow-movable alternatives is nothrow movable
    void check_noexcept() {
        bool mc = true;
        for (int i = 0; i < S::nalts; ++i) if (!info(i).nt_move || info(i).wrapper) mc = false;
        if (mc && !std::is_nothrow_move_constructible<V>::value)
            violate(P04 | P06, "move-not-noexcept", "moving a variant of nothrow-movable alternatives is not noexcept");
    }
    // allocation bounds
    void check_allocs(bool none_allowed) {
        if (exact && none_allowed && G.op->allocs)
            violate(P12, "unexpected-allocation", "%s allocated memory %u times", G.where, G.op->allocs);
    }
    bool all_nt() const {
        for (int i = 0; i < S::nalts; ++i) if (!info(i).nt_copy && !info(i).nt_move) return false;
        return true;
    }
    bool any_wrapper() const {
        for (int i = 0; i < S::nalts; ++i) if (info(i).wrapper) return true;
        return false;
    }

    void born(int i, bool ok, int alt, u64 val) {
        Model& m = s.m[i];
        if (ok) {
            m.ex = true; m.alt = alt; m.val = val; m.heap_ok = false; m.heap = false; m.survivor = false;
            s.al[i].add(alt, val);
        } else {
            m.ex = false;
            s.fill(i);
        }
    }
    void kill(int i) {
        if (!s.m[i].ex) return;
        OpState& o = *G.op;
        o.reset();
        G.cur_tags = P02 | P01 | (any_failed ? P03 : 0u);
        char keep[200];
        std::memcpy(keep, G.where, sizeof keep);
        std::snprintf(G.where, sizeof G.where, "%s destructor", Cfg::name());
        o.active = true; G.tracking = true;
        s.at(i).~V();
        o.active = false; G.tracking = false;
        std::memcpy(G.where, keep, sizeof keep);
        s.m[i].ex = false;
        if (!s.redzone_ok(i)) violate(P02, "redzone", "destroying a variant wrote outside it");
        s.fill(i);
    }
    void fkill(int i) {
        if (!f.m[i].ex) return;
        OpState& o = *G.op;
        o.reset();
        o.active = true; G.tracking = true;
        f.at(i).~FV();
        o.active = false; G.tracking = false;
        f.m[i].ex = false;
        f.fill(i);
    }

    // ------------------------------------------------ construction from a value of an alternative
    struct CtorVal {
        World& w; const Op& op; int i;
        template <class T, int I> void operator()() { go<T, I>(Bool<std::is_copy_constructible<T>::value && Cfg::copyable>()); }
        template <class T, int I> void go(std::true_type) {
            int mode = w.op_mode(op, 3);
            if (mode == 2) { go<T, I>(std::false_type()); return; }
            T tmp(Val<T>::make(op.val));
            u64 c = w.canon_quiet(tmp);
            void* p = w.s.raw(i);
            bool ok;
            if (mode == 0 && op.mode % 7 == 6) { const T& r = tmp; ok = attempt(op, P05 | P01, [&] { new (p) V(std::move(r)); }); }
            else if (mode == 0) { const T& r = tmp; ok = attempt(op, P05 | P01, [&] { new (p) V(r); }); }
            else ok = attempt(op, P05 | P01, [&] { new (p) V(tmp); });
            w.after_ctor(i, ok, I, c, !w.info(I).wrapper);
            if (w.canon_quiet(tmp) != c)
                violate(P05 | P03, "argument-changed", "%s changed the value it copied from", w.what);
        }
        template <class T, int I> void go(std::false_type) {
            T tmp(Val<T>::make(op.val));
            u64 c = w.canon_quiet(tmp);
            void* p = w.s.raw(i);
            bool ok = attempt(op, P05 | P06 | P01, [&] { new (p) V(std::move(tmp)); });
            if (G.op->ncopy && !Cfg::copyonly)
                violate(P06, "rvalue-copied", "%s copied although it was given an rvalue", w.what);
            w.after_ctor(i, ok, I, c, !w.info(I).wrapper);
            (void)w.canon_quiet(tmp);
        }
    };
    int op_mode(const Op& op, int n) { int k = op.mode % n; lm = k < 0 ? 0 : k; return lm; }
    template <class T> u64 canon_quiet(const T& x) { Quiet q; u64 w = G.walk; u64 c = Val<T>::canon(x); G.walk = w; return c; }
    void after_ctor(int i, bool ok, int alt, u64 c, bool noalloc) {
        check_allocs(noalloc);
        born(i, ok, alt, c);
    }

    // ------------------------------------------------ assignment of a value of an alternative
    struct AsgVal {
        World& w; const Op& op; int i;
        template <class T, int I> void operator()() { go<T, I>(Bool<std::is_copy_constructible<T>::value && Cfg::copyable>()); }
        template <class T, int I> void go(std::true_type) {
            int mode = w.op_mode(op, 3);
            if (mode == 2) { go<T, I>(std::false_type()); return; }
            T tmp(Val<T>::make(op.val));
            u64 c = w.canon_quiet(tmp);
            V& v = w.s.at(i);
            bool ok;
            if (mode == 0 && op.mode % 7 == 6) { const T& r = tmp; ok = attempt(op, P05 | P01 | P03, [&] { w.same(&(v = std::move(r)), &v); }); }
            else if (mode == 0) { const T& r = tmp; ok = attempt(op, P05 | P01 | P03, [&] { w.same(&(v = r), &v); }); }
            else ok = attempt(op, P05 | P01 | P03, [&] { w.same(&(v = tmp), &v); });
            w.after_asg(op, i, ok, I, c, false, FROM_VALUE);
            if (w.canon_quiet(tmp) != c)
                violate(P05 | P03, "argument-changed", "%s changed the value it copied from", w.what);
        }
        template <class T, int I> void go(std::false_type) {
            T tmp(Val<T>::make(op.val));
            u64 c = w.canon_quiet(tmp);
            V& v = w.s.at(i);
            bool ok = attempt(op, P05 | P01 | P03 | P06, [&] { w.same(&(v = std::move(tmp)), &v); });
            w.check_no_nt_copies();
            w.check_moves(w.s.m[i].alt == I || w.must_move(I));
            w.after_asg(op, i, ok, I, c, false, FROM_VALUE);
            (void)w.canon_quiet(tmp);
        }
    };
    void same(const void* a, const void* b) { if (a != b) violate(P05, "wrong-reference-returned", "%s did not return its target", what); }
    void check_no_nt_copies() {
        if (G.op->ncopy_nt && Cfg::plain) violate(P06, "nothrow-movable-copied", "%s copied content that is nothrow movable", what);
    }
    // Move assignment and swap copy only to protect old content from a move that may throw.
    bool must_move(int alt) const { return s.has_fb && (info(alt).nt_move || !info(alt).nt_copy); }
    void check_moves(bool no_copy) {
        if (no_copy && G.op->ncopy && Cfg::moves && !Cfg::copyonly) violate(P06, "moved-by-copying", "%s copied content that it only had to move", what);
    }
    enum { FROM_VARIANT, FROM_VALUE, CONVERTED };
    void after_asg(const Op& op, int i, bool ok, int alt, u64 val, bool sheap, int how) {
        Model& m = s.m[i];
        bool cross = m.alt != alt;
        bool dheap = m.heap;
        int dalt = m.alt;
        // memory may be needed only when content that can fail replaces content of another type
        check_allocs((!info(alt).wrapper && (s.has_fb || info(alt).nt_copy || info(alt).nt_move))
                     || (!cross && (how == FROM_VALUE || (how == CONVERTED && info(alt).wrapper ? false : !dheap && !sheap && !(info(alt).wrapper && m.heap_ok)))));
        if (ok) {
            s.al[i].add(alt, val);
            if (m.heap) probe(PR_TO_HEAP);
        } else {
            s.allow_failed_assign(i, alt, false);
            m.heap_ok = true;
            probe(PR_FAILED_ASSIGN);
        }
        sign(op, ok, dalt, alt, dheap, sheap);
    }

public:
    static const int alts_count = S::nalts;
    World() : exact(Cfg::exact != 0), alone(true), any_failed(false), sg(0), lm(0) { what[0] = 0; check_noexcept(); }
    u64 sig() const { return sg; }

    bool step(const Op& op) {
        sg = 0;
        lm = op.mode & 1;
        int a = op.a % NV, b = op.b % NV;
        switch (op.code) {
        case O_CTOR_DEF: kill(a); begin(op, ""); ctor_def(op, a, Bool<Cfg::defaultable>()); break;
        case O_CTOR_VAL: {
            kill(a); begin(op, "");
            CtorVal fn = {*this, op, a};
            int alt = op.alt % S::nalts;
            with_type<L>(alt, fn);
            sign(op, s.m[a].ex, alt, 0, false, false);
            check(s.m[a].ex, P05);
            break;
        }
        case O_CTOR_COPY: if (a == b || !s.m[b].ex) return false; kill(a); begin(op, ""); ctor_copy(op, a, b, Bool<Cfg::copyable>()); break;
        case O_CTOR_MOVE: if (a == b || !s.m[b].ex) return false; kill(a); begin(op, ""); ctor_move(op, a, b); break;
        case O_DTOR: if (!s.m[a].ex) return false; begin(op, ""); sign(op, true, s.m[a].alt, 0, s.m[a].heap, false); kill(a); check(true, P02); break;
        case O_ASG_COPY: if (!s.m[a].ex || !s.m[b].ex) return false; begin(op, a == b ? " self" : ""); asg_copy(op, a, b, Bool<Cfg::copyable>()); break;
        case O_ASG_MOVE: if (!s.m[a].ex || !s.m[b].ex) return false; begin(op, a == b ? " self" : ""); asg_move(op, a, b); break;
        case O_ASG_VAL: {
            if (!s.m[a].ex) return false;
            begin(op, "");
            bool was_failed = any_failed;
            AsgVal fn = {*this, op, a};
            with_type<L>(op.alt % S::nalts, fn);
            bool ok = G.op->fired == 0;
            if (ok && was_failed) probe(PR_RECOVERED);
            check(ok, P05 | (op_mode(op, 3) == 2 ? P06 : 0u));
            break;
        }
        case O_SWAP: if (!s.m[a].ex || !s.m[b].ex) return false; begin(op, a == b ? " self" : ""); do_swap(op, a, b); break;
        case O_MUTATE: {
            if (!s.m[a].ex) return false;
            begin(op, "");
            Quiet q;
            int alt = s.m[a].alt;
            typename S::SetFn fn = {&s.at(a), op.val};
            // in-place mutation through the value access interface; the model follows what is seen through visitation
            G.op->reset(); G.op->active = true; G.tracking = true;
            with_type<L>(alt, fn);
            G.op->active = false; G.tracking = false;
            s.al[a].add_any(alt);
            mutated(a, alt, op.val);
            check(true, P05 | P08);
            break;
        }
        default: return step2(op, a, b);
        }
        return true;
    }
    bool step2(const Op& op, int a, int b);

    struct CanonOf { int v; u64 c; bool simple; template <class T, int I> void operator()() { c = Val<T>::canon_of(v); } };
    void mutated(int i, int alt, int val) {
        CanonOf fn = {val, 0, false};
        with_type<L>(alt, fn);
        s.al[i].n = 0;
        s.al[i].add(alt, fn.c);
    }

    void ctor_def(const Op& op, int i, std::true_type) {
        void* p = s.raw(i);
        bool ok = attempt(op, P05 | P01, [&] { new (p) V(); });
        check_allocs(!info(0).wrapper);
        born(i, ok, 0, info(0).defv);
        if (ok && !info(0).simple) s.al[i].add_any(0);
        sign(op, ok, 0, 0, false, false);
        check(ok, P05);
    }
    void ctor_def(const Op&, int, std::false_type) {}

    void ctor_copy(const Op& op, int i, int j, std::true_type) {
        void* p = s.raw(i);
        Model src = s.m[j];
        bool ok;
        if (src.heap) probe(PR_FROM_HEAP);
        if (op.mode % 7 == 6) { const V& r = s.at(j); ok = attempt(op, P05 | P01, [&] { new (p) V(std::move(r)); }); }
        else if (op.mode & 1) { V& r = s.at(j); ok = attempt(op, P05 | P01, [&] { new (p) V(r); }); }
        else { const V& r = s.at(j); ok = attempt(op, P05 | P01, [&] { new (p) V(r); }); }
        check_allocs(!info(src.alt).wrapper);
        born(i, ok, src.alt, src.val);
        sign(op, ok, src.alt, 0, false, src.heap);
        check(ok, P05);
    }
    void ctor_copy(const Op&, int, int, std::false_type) {}

    void ctor_move(const Op& op, int i, int j) {
        void* p = s.raw(i);
        Model src = s.m[j];
        if (src.heap) probe(PR_FROM_HEAP);
        bool ok = attempt(op, P05 | P06 | P01, [&] { new (p) V(std::move(s.at(j))); });
        if (G.op->ncopy && !Cfg::copyonly) violate(P06, "rvalue-copied", "%s copied although it was given an rvalue", what);
        check_allocs(!info(src.alt).wrapper);
        born(i, ok, src.alt, src.val);
        s.allow_moved_from(j, src.alt, src.val);
        if (ok) probe(PR_MOVEDFROM);
        sign(op, ok, src.alt, 0, false, src.heap);
        check(ok, P05 | P06);
    }

    void asg_copy(const Op& op, int i, int j, std::true_type) {
        Model src = s.m[j], dst = s.m[i];
        if (src.heap) probe(PR_FROM_HEAP);
        if (src.heap && dst.heap) probe(PR_BOTH_HEAP);
        if (i == j) probe(PR_SELF);
        V& v = s.at(i);
        bool ok, was_failed = any_failed;
#if SIM_GROUPS & GR_VISIT
        if (op.mode / 2 % 9 == 0) {          // from within a visitation of the target itself
            const V& r = s.at(j);
            Within<V, true> in(&v, &r, 0);
            ok = attempt(op, P05 | P01 | P03 | P07, [&] { boost::apply_visitor(in, v); same(in.back, &v); });
            if (in.calls != 1) violate(P07, "visitor-call-count", "%s from within a visitation ran the visitor %d times", what, in.calls);
        } else
#endif
        if (op.mode % 7 == 6) { const V& r = s.at(j); ok = attempt(op, P05 | P01 | P03, [&] { same(&(v = std::move(r)), &v); }); }
        else if (op.mode & 1) { V& r = s.at(j); ok = attempt(op, P05 | P01 | P03, [&] { same(&(v = r), &v); }); }
        else { const V& r = s.at(j); ok = attempt(op, P05 | P01 | P03, [&] { same(&(v = r), &v); }); }
        after_asg(op, i, ok, src.alt, src.val, src.heap || (info(src.alt).wrapper && src.heap_ok), FROM_VARIANT);
        sign(op, ok, dst.alt, src.alt, dst.heap, src.heap);
        if (i == j) { s.al[i].n = 0; s.al[i].add(src.alt, src.val); if (!ok && !info(src.alt).strong) s.al[i].add_any(src.alt); }
        if (ok && was_failed) probe(PR_RECOVERED);
        check(ok, P05);
    }
    void asg_copy(const Op&, int, int, std::false_type) {}

    void asg_move(const Op& op, int i, int j) {
        Model src = s.m[j], dst = s.m[i];
        if (src.heap) probe(PR_FROM_HEAP);
        if (src.heap && dst.heap) probe(PR_BOTH_HEAP);
        if (i == j) probe(PR_SELF);
        V& v = s.at(i);
        bool was_failed = any_failed;
        bool ok = attempt(op, P05 | P06 | P01 | P03, [&] { same(&(v = std::move(s.at(j))), &v); });
        check_no_nt_copies();
        check_moves((src.alt == dst.alt && src.heap == dst.heap && !(info(src.alt).wrapper && (src.heap_ok || dst.heap_ok))) || must_move(src.alt));
        after_asg(op, i, ok, src.alt, src.val, src.heap || (info(src.alt).wrapper && src.heap_ok), FROM_VARIANT);
        sign(op, ok, dst.alt, src.alt, dst.heap, src.heap);
        if (i == j) {       // self move: the value or the moved-from value, same alternative
            s.al[i].n = 0;
            s.allow_moved_from(i, src.alt, src.val);
        } else {
            s.allow_moved_from(j, src.alt, src.val);
            if (info(src.alt).wrapper && src.alt == dst.alt) s.al[j].add(dst.alt, dst.val);   // exchanging is a legal move
        }
        if (ok && was_failed) probe(PR_RECOVERED);
        check(ok, P05 | P06);
    }

    void do_swap(const Op& op, int i, int j) {
        Model x = s.m[i], y = s.m[j];
        if (i == j) probe(PR_SELF);
        V& v = s.at(i);
        V& u = s.at(j);
        bool ok;
#if SIM_GROUPS & GR_VISIT
        if (op.mode / 2 % 9 == 0) {
            Within<V, false> in(&v, 0, &u);
            ok = attempt(op, P05 | P06 | P01 | P07, [&] { boost::apply_visitor(in, v); });
            if (in.calls != 1) violate(P07, "visitor-call-count", "%s from within a visitation ran the visitor %d times", what, in.calls);
        } else
#endif
        if (op.mode & 1) ok = attempt(op, P05 | P06 | P01, [&] { using std::swap; swap(v, u); });
        else ok = attempt(op, P05 | P06 | P01, [&] { v.swap(u); });
        check_no_nt_copies();
        check_moves(x.alt == y.alt || (must_move(x.alt) && must_move(y.alt)));
        check_allocs(x.alt == y.alt || (!info(x.alt).wrapper && !info(y.alt).wrapper
                     && (s.has_fb || ((info(x.alt).nt_copy || info(x.alt).nt_move) && (info(y.alt).nt_copy || info(y.alt).nt_move)))));
        if (ok) {
            if (i == j) { s.al[i].add(x.alt, x.val); }
            else { s.al[i].add(y.alt, y.val); s.al[j].add(x.alt, x.val); }
        } else {
            probe(PR_SWAP_FAIL);
            const int k[2] = {i, j};
            for (int n = 0; n < 2; ++n) {
                Allowed& al = s.al[k[n]];
                al.add(x.alt, x.val); al.add(y.alt, y.val);
                al.add(x.alt, info(x.alt).moved); al.add(y.alt, info(y.alt).moved);
                if (!info(x.alt).simple) al.add_any(x.alt);
                if (!info(y.alt).simple) al.add_any(y.alt);
                if (s.has_fb) s.allow_fallback(k[n]);
                s.m[k[n]].heap_ok = true;
            }
        }
        sign(op, ok, x.alt, y.alt, x.heap, y.heap);
        check(ok, P05 | P06);
    }

    void teardown() {
        s.begin_op(); f.begin_op();
        for (int i = 0; i < NV; ++i) { kill(i); if (G.vio.set) return; }
        for (int i = 0; i < NF; ++i) { fkill(i); if (G.vio.set) return; }
    }
    void finish() {
        teardown();
        if (G.vio.set) return;
        if (obj_count()) violate(P02, "leaked-object", "%zu objects are still alive after every variant was destroyed", obj_count());
        else if (heap_tracked()) violate(P02, "leaked-memory", "%zu heap blocks are still held after every variant was destroyed", heap_tracked());
        heap_check("at the end of the run");
    }
};

template <class Cfg> struct Register {
    static IWorld* make() { return new World<Cfg>(); }
    static void gen_ops(u32* w) {
        if (!Cfg::copyable) w[O_CTOR_COPY] = w[O_ASG_COPY] = 0;
        if (!Cfg::defaultable) w[O_CTOR_DEF] = 0;
        if (!Cfg::foreign) w[O_F_CTOR] = w[O_F_ASG] = w[O_CTOR_CONV] = w[O_ASG_CONV] = 0;
        if (!Cfg::cmp) w[O_CMP] = w[O_HASH] = 0;
        if (!Cfg::hash) w[O_HASH] = 0;
        if (!Cfg::stream) w[O_STREAM] = 0;
        if (!Cfg::src) w[O_CTOR_SRC] = w[O_ASG_SRC] = 0;
        if (!Cfg::rec) w[O_NEST] = 0;
        if (!Cfg::cont) w[O_CONT] = 0;
        if (!Cfg::visitn) w[O_VISITN] = 0;
        if (!Cfg::visit2) w[O_VISIT2] = 0;
    }
};

struct CfgDefaults {
    enum {
        copyable = 1, defaultable = 1, cmp = 1, stream = 1, exact = 1, foreign = 0, src = 0, rec = 0, cont = 1, visit2 = 1,
        visitn = 0, copyonly = 0, plain = 1, moves = 1, tags = 0, wide = 1, hash = 1, poly = 0
    };
    typedef boost::variant<boost::blank> F;
    typedef TL<boost::blank> falts;
    template <class W> static bool nest(W&, const Op&, int, int) { return false; }
};

} // namespace sim

#include "ops.h"

#define SIM_CFG(C)                                                                                                    \
    static sim::CfgEntry entry_##C = {C::name(), &sim::Register<C>::make, &sim::Register<C>::gen_ops, C::tags,        \
                                      sim::World<C>::alts_count, 0, 0};                                             \
    static sim::Reg reg_##C(entry_##C);
#endif
