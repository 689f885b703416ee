// Element types that are awkward to construct or to store.
#pragma once
#include "world.h"
#include <initializer_list>
namespace sim {
// Empty class whose every special member matters.
template <int ID, unsigned F = 0> class Emp {
public:
    static const int id = ID;
    static const unsigned flags = F;
    bool ok(const char* what) const { return obj_check(this, ID, what); }
    Emp() noexcept((F & F_NTDEF) != 0) { pt(K_DEF, std::integral_constant<bool, (F & F_NTDEF) != 0>()); obj_birth(this, 1, ID); }
    explicit Emp(int, int) { obj_birth(this, 1, ID); }
    Emp(const Emp& o) noexcept((F & F_NTCOPY) != 0) {
        o.ok("copy source");
        pt(K_COPY, std::integral_constant<bool, (F & F_NTCOPY) != 0>());
        ++G.op->ncopy; if (F & F_NTMOVE) ++G.op->ncopy_nt;
        obj_birth(this, 1, ID);
    }
    Emp(Emp&& o) noexcept((F & F_NTMOVE) != 0) {
        o.ok("move source");
        pt(K_MOVE, std::integral_constant<bool, (F & F_NTMOVE) != 0>());
        ++G.op->nmove;
        obj_birth(this, 1, ID);
    }
    ~Emp() { obj_death(this, 1, ID); }
    Emp& operator=(const Emp& o) {
        ok("copy-assign target"); o.ok("copy-assign source"); fault_point(K_CASSIGN);
        ++G.op->ncopy; if (F & F_NTMOVE) ++G.op->ncopy_nt;
        return *this;
    }
    Emp& operator=(Emp&& o) { ok("move-assign target"); o.ok("move-assign source"); fault_point(K_MASSIGN); ++G.op->nmove; return *this; }
    friend bool operator==(const Emp& x, const Emp& y) { x.ok("=="); y.ok("=="); fault_point(K_EQ); return rel_eq(true); }
    friend bool operator<(const Emp& x, const Emp& y) { x.ok("<"); y.ok("<"); fault_point(K_LT); return rel_lt(false); }
    friend std::size_t hash_value(const Emp& a) { a.ok("hash"); fault_point(K_HASH); return 4711; }
    template <class C, class T> friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& os, const Emp& a) {
        a.ok("<<"); fault_point(K_STREAM); os << ID; return os;
    }
};
template <int I, unsigned F> struct Val<Emp<I, F> > {
    typedef Emp<I, F> E;
    static const bool simple = true, strong = true, pod = false, fp = true;
    static u64 canon(const E& x) { x.ok("content"); ++G.walk; return 0; }
    static E make(int v) { return E(v, 0); }
    static void set(E&, int) {}
    static u64 canon_of(int) { return 0; }
    static u64 moved() { return 0; }
    static u64 defv() { return 0; }
    static int tag() { return I; }
};
// Like a list of itself: T{x} is not T(x).
template <int ID, unsigned F = 0> class ElList : public El<ID, F> {
public:
    ElList() noexcept((F & F_NTDEF) != 0) {}
    explicit ElList(int x, int y) : El<ID, F>(x, y) {}
    ElList(std::initializer_list<ElList> l) : El<ID, F>(static_cast<int>(100 + l.size()), 0) {}
    ElList(const ElList&) = default;
    ElList(ElList&&) = default;
    ElList& operator=(const ElList&) = default;
    ElList& operator=(ElList&&) = default;
};
template <int I, unsigned F> struct Val<ElList<I, F> > : ValEl<ElList<I, F> > {};
// Brings its own memory management: what its operator new gave must go back to its operator delete.
template <int ID, unsigned F = 0> class ElOwn : public El<ID, F> {
    enum { HEAD = 64 };
    static u64 mark(const void* p) { return mix(0x0317 + ID, reinterpret_cast<u64>(p)); }
public:
    ElOwn() noexcept((F & F_NTDEF) != 0) {}
    explicit ElOwn(int x, int y) : El<ID, F>(x, y) {}
    ElOwn(const ElOwn&) = default;
    ElOwn(ElOwn&&) = default;
    ElOwn& operator=(const ElOwn&) = default;
    ElOwn& operator=(ElOwn&&) = default;
    static void* operator new(std::size_t n) {
        char* p = static_cast<char*>(::operator new(n + HEAD));
        u64 m = mark(p + HEAD);
        std::memcpy(p, &m, sizeof m);
        return p + HEAD;
    }
    static void operator delete(void* q) noexcept {
        if (!q) return;
        char* p = static_cast<char*>(q) - HEAD;
        u64 m;
        std::memcpy(&m, p, sizeof m);
        if (m != mark(q)) { violate(P02, "wrong-deallocation", "memory was given to an operator delete it does not belong to while %s", G.where); return; }
        ::operator delete(static_cast<void*>(p));
    }
    static void* operator new(std::size_t, void* p) noexcept { return p; }
    static void operator delete(void*, void*) noexcept {}
};
template <int I, unsigned F> struct Val<ElOwn<I, F> > : ValEl<ElOwn<I, F> > {};
// Can be made from anything: it must only ever be made from what was meant.
template <int ID, unsigned F = 0> class ElAny : public El<ID, F> {
public:
    ElAny() noexcept((F & F_NTDEF) != 0) {}
    explicit ElAny(int x, int y) : El<ID, F>(x, y) {}
    ElAny(const ElAny&) = default;
    ElAny(ElAny&&) = default;
    ElAny& operator=(const ElAny&) = default;
    ElAny& operator=(ElAny&&) = default;
    template <class X, class = typename std::enable_if<!std::is_base_of<ElAny, typename std::decay<X>::type>::value>::type>
    ElAny(X&&) : El<ID, F>(-50, 0) {}
};
template <int I, unsigned F> struct Val<ElAny<I, F> > : ValEl<ElAny<I, F> > {};
}
namespace std {
template <int ID, unsigned F> struct hash<sim::Emp<ID, F> > { std::size_t operator()(const sim::Emp<ID, F>& a) const { return hash_value(a); } };
template <int ID, unsigned F> struct hash<sim::ElOwn<ID, F> > { std::size_t operator()(const sim::ElOwn<ID, F>& a) const { return hash_value(a); } };
template <int ID, unsigned F> struct hash<sim::ElAny<ID, F> > { std::size_t operator()(const sim::ElAny<ID, F>& a) const { return hash_value(a); } };
template <int ID, unsigned F> struct hash<sim::ElList<ID, F> > { std::size_t operator()(const sim::ElList<ID, F>& a) const { return hash_value(a); } };
}
