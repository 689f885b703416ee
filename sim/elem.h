// Simulated element types: every operation a variant performs on its content is a fault point and is checked.
#ifndef SIM_ELEM_H
#define SIM_ELEM_H
#include "core.h"
#include <limits>
#include <functional>
#include <iosfwd>
#include <ostream>
#include <map>
#include <string>
#include <type_traits>
#include <vector>
#include <boost/blank.hpp>
#include <boost/functional/hash.hpp>

namespace boost { inline std::size_t hash_value(const blank&) { return 0xb1a; } }

namespace sim {

const int MOVED = -1;    // value of a tracer that was moved from
const int DEFV = -2;     // value of a default-constructed tracer

enum : unsigned {
    F_NTDEF = 1, F_NTCOPY = 2, F_NTMOVE = 4, F_SWAP = 8, F_NODEF = 16, F_SMALL = 32, F_NTASG = 64, F_ADDR = 128,
    F_NTALL = F_NTCOPY | F_NTMOVE
};

template <int ID> struct Src { int v; explicit Src(int x) : v(x) {} };

struct PadN {
    template <int N> struct Of { unsigned char b[N]; };
};

// What writing a tracer does to the stream besides characters: depends on the value, must survive being inside a variant.
int stream_slot();
template <class C, class T> void stream_effect(std::basic_ostream<C, T>& os, int v) {
    switch (v & 15) {
    case 1: os.setf(std::ios_base::hex, std::ios_base::basefield); break;
    case 3: os.precision(2 + v % 5); break;
    case 5: os.fill(C('~')); break;
    case 7: os.width(4); break;
    case 9: os.setstate(std::ios_base::failbit); break;
    case 11: os.iword(stream_slot()) += v; break;
    case 13: os.setf(std::ios_base::boolalpha | std::ios_base::showpos); break;
    case 15: os.clear(os.rdstate() & ~std::ios_base::eofbit); break;
    default: break;
    }
}

// Core of a tracer: a value, a pointer to itself, a pad that must survive untouched.
template <int ID, unsigned F, int PAD, int AL>
class alignas(AL) ElBase {
public:
    int v;
protected:
    u32 magic;
    const void* self;
    unsigned char pad[PAD];
    static const u32 MAG = 0xE1000000u + ID;
    void birth() {
        obj_birth(this, sizeof *this, ID);
        magic = MAG;
        self = this;
        for (int i = 0; i < PAD; ++i) pad[i] = static_cast<unsigned char>(ID * 37 + i);
    }
public:
    bool ok(const char* what) const {
        if (!obj_check(this, ID, what)) return false;
        if (magic != MAG || self != this) {
            violate(P01 | P02 | G.cur_tags, "content-corrupted", "%s: object bytes were overwritten or relocated while %s", what, G.where);
            return false;
        }
        for (int i = 0; i < PAD; ++i)
            if (pad[i] != static_cast<unsigned char>(ID * 37 + i)) {
                violate(P01 | P02 | G.cur_tags, "content-corrupted", "%s: object bytes were overwritten while %s", what, G.where);
                return false;
            }
        if (reinterpret_cast<std::uintptr_t>(this) % AL)
            violate(P12 | P02, "misaligned", "%s: object is misaligned while %s", what, G.where);
        return true;
    }
    void die() {
        if (magic != MAG || self != this)
            violate(P01 | P02 | G.cur_tags, "destroyed-not-object", "destroying something that is not an object while %s", G.where);
        obj_death(this, sizeof *this, ID);
        magic = 0xDEADDEAD;
        self = nullptr;
        v = -77;
    }
};

inline void pt(Kind k, std::true_type) noexcept { note_point(k); }
inline void pt(Kind k, std::false_type) { fault_point(k); }

// Copyable and movable tracer.
template <int ID, unsigned F = 0, int PAD = 8, int AL = 8>
class El : public ElBase<ID, F, PAD, AL> {
    typedef ElBase<ID, F, PAD, AL> B;
    void cnt_copy() const { ++G.op->ncopy; if (F & F_NTMOVE) ++G.op->ncopy_nt; }
public:
    static const int id = ID;
    static const unsigned flags = F;
    El() noexcept((F & F_NTDEF) != 0) {
        pt(K_DEF, std::integral_constant<bool, (F & F_NTDEF) != 0>());
        this->birth(); this->v = DEFV;
    }
    explicit El(int x, int) { this->birth(); this->v = x; }
    El(const Src<ID>& s) { fault_point(K_CONV); this->birth(); this->v = s.v; }
    ~El() { this->die(); }
    El(const El& o) noexcept((F & F_NTCOPY) != 0) : B() {
        o.ok("copy source");
        pt(K_COPY, std::integral_constant<bool, (F & F_NTCOPY) != 0>());
        cnt_copy();
        this->birth(); this->v = o.v;
    }
    El(El&& o) noexcept((F & F_NTMOVE) != 0) : B() {
        o.ok("move source");
        pt(K_MOVE, std::integral_constant<bool, (F & F_NTMOVE) != 0>());
        ++G.op->nmove;
        this->birth(); this->v = o.v; o.v = MOVED;
    }
    El& operator=(const El& o) noexcept((F & F_NTASG) != 0) {
        this->ok("copy-assign target"); o.ok("copy-assign source");
        pt(K_CASSIGN, std::integral_constant<bool, (F & F_NTASG) != 0>());
        cnt_copy();
        this->v = o.v;
        return *this;
    }
    El& operator=(El&& o) noexcept((F & F_NTASG) != 0) {
        this->ok("move-assign target"); o.ok("move-assign source");
        pt(K_MASSIGN, std::integral_constant<bool, (F & F_NTASG) != 0>());
        ++G.op->nmove;
        if (this != &o) { this->v = o.v; o.v = MOVED; }
        return *this;
    }
    friend bool operator==(const El& a, const El& b) {
        a.ok("== left"); b.ok("== right"); fault_point(K_EQ); return rel_eq(a.v == b.v);
    }
    friend bool operator<(const El& a, const El& b) {
        a.ok("< left"); b.ok("< right"); fault_point(K_LT); return rel_lt(a.v < b.v);
    }
    friend std::size_t hash_value(const El& a) {
        a.ok("hash"); fault_point(K_HASH); return static_cast<std::size_t>(mix(77, static_cast<u64>(a.v)));
    }
    template <class C, class T>
    friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& os, const El& a) {
        a.ok("<<"); fault_point(K_STREAM);
        os << ID; fault_point(K_STREAM); os << C('#') << a.v;
        stream_effect(os, a.v);
        return os;
    }
};
// Tracer with its own swap.
template <int ID, unsigned F, int PAD, int AL>
typename std::enable_if<(F & F_SWAP) != 0>::type swap(El<ID, F, PAD, AL>& a, El<ID, F, PAD, AL>& b) {
    a.ok("swap left"); b.ok("swap right");
    fault_point(K_SWAP);
    int t = a.v; a.v = b.v; b.v = t;
}

// Tracer whose unary operator& lies: the library must find objects without it.
template <int ID, unsigned F = 0, int PAD = 8>
class ElAmp : public El<ID, F, PAD> {
    typedef El<ID, F, PAD> B;
public:
    ElAmp() noexcept((F & F_NTDEF) != 0) {}
    explicit ElAmp(int x, int y) : B(x, y) {}
    ElAmp(const ElAmp&) = default;
    ElAmp(ElAmp&&) = default;
    ElAmp& operator=(const ElAmp&) = default;
    ElAmp& operator=(ElAmp&&) = default;
    ElAmp* operator&() { return 0; }
    const ElAmp* operator&() const { return 0; }
};

// Two unrelated polymorphic-get bases, and tracers that derive from them at different offsets.
struct PBase { int pb; PBase() : pb(0x5EED) {} };
struct PVirt { int pv; PVirt() : pv(0x7EED) {} virtual ~PVirt() {} };
template <int ID, unsigned F = 0> class ElP1 : public PBase, public El<ID, F> {       // base first
public:
    ElP1() noexcept((F & F_NTDEF) != 0) {}
    explicit ElP1(int x, int y) : El<ID, F>(x, y) {}
};
template <int ID, unsigned F = 0> class ElP2 : public El<ID, F>, public PBase {       // base last
public:
    ElP2() noexcept((F & F_NTDEF) != 0) {}
    explicit ElP2(int x, int y) : El<ID, F>(x, y) {}
};
template <int ID, unsigned F = 0> class ElP3 : public El<ID, F>, public PVirt {       // another base, polymorphic
public:
    ElP3() noexcept((F & F_NTDEF) != 0) {}
    explicit ElP3(int x, int y) : El<ID, F>(x, y) {}
};
template <int ID, unsigned F = 0> class ElP4 : public El<ID, F>, public virtual PBase {   // virtual base
public:
    ElP4() noexcept((F & F_NTDEF) != 0) {}
    explicit ElP4(int x, int y) : El<ID, F>(x, y) {}
    ElP4(const ElP4& o) noexcept((F & F_NTCOPY) != 0) : PBase(o), El<ID, F>(o) {}
    ElP4(ElP4&& o) noexcept((F & F_NTMOVE) != 0) : PBase(o), El<ID, F>(std::move(static_cast<El<ID, F>&>(o))) {}
    ElP4& operator=(const ElP4& o) { El<ID, F>::operator=(o); return *this; }
    ElP4& operator=(ElP4&& o) { El<ID, F>::operator=(std::move(static_cast<El<ID, F>&>(o))); return *this; }
};

// Copy-only tracer (no move operations at all).
template <int ID, unsigned F = 0, int PAD = 8>
class ElC : public ElBase<ID, F, PAD, 8> {
    typedef ElBase<ID, F, PAD, 8> B;
public:
    static const int id = ID;
    static const unsigned flags = F;
    ElC() noexcept((F & F_NTDEF) != 0) {
        pt(K_DEF, std::integral_constant<bool, (F & F_NTDEF) != 0>());
        this->birth(); this->v = DEFV;
    }
    explicit ElC(int x, int) { this->birth(); this->v = x; }
    ~ElC() { this->die(); }
    ElC(const ElC& o) noexcept((F & F_NTCOPY) != 0) : B() {
        o.ok("copy source");
        pt(K_COPY, std::integral_constant<bool, (F & F_NTCOPY) != 0>());
        ++G.op->ncopy;
        this->birth(); this->v = o.v;
    }
    ElC& operator=(const ElC& o) noexcept((F & F_NTASG) != 0) {
        this->ok("copy-assign target"); o.ok("copy-assign source");
        pt(K_CASSIGN, std::integral_constant<bool, (F & F_NTASG) != 0>());
        ++G.op->ncopy;
        this->v = o.v;
        return *this;
    }
    friend bool operator==(const ElC& a, const ElC& b) { a.ok("=="); b.ok("=="); fault_point(K_EQ); return rel_eq(a.v == b.v); }
    friend bool operator<(const ElC& a, const ElC& b) { a.ok("<"); b.ok("<"); fault_point(K_LT); return rel_lt(a.v < b.v); }
    friend std::size_t hash_value(const ElC& a) { a.ok("hash"); fault_point(K_HASH); return static_cast<std::size_t>(mix(ID, static_cast<u64>(a.v))); }
    template <class C, class T>
    friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& os, const ElC& a) {
        a.ok("<<"); fault_point(K_STREAM); os << ID; fault_point(K_STREAM); os << C('#') << a.v; return os;
    }
};

// Move-only tracer.
template <int ID, unsigned F = 0, int PAD = 8>
class Mo : public ElBase<ID, F, PAD, 8> {
    typedef ElBase<ID, F, PAD, 8> B;
    Mo(const Mo&);
    Mo& operator=(const Mo&);
public:
    static const int id = ID;
    static const unsigned flags = F;
    Mo() noexcept((F & F_NTDEF) != 0) {
        pt(K_DEF, std::integral_constant<bool, (F & F_NTDEF) != 0>());
        this->birth(); this->v = DEFV;
    }
    explicit Mo(int x, int) { this->birth(); this->v = x; }
    ~Mo() { this->die(); }
    Mo(Mo&& o) noexcept((F & F_NTMOVE) != 0) : B() {
        o.ok("move source");
        pt(K_MOVE, std::integral_constant<bool, (F & F_NTMOVE) != 0>());
        ++G.op->nmove;
        this->birth(); this->v = o.v; o.v = MOVED;
    }
    Mo& operator=(Mo&& o) noexcept((F & F_NTASG) != 0) {
        this->ok("move-assign target"); o.ok("move-assign source");
        pt(K_MASSIGN, std::integral_constant<bool, (F & F_NTASG) != 0>());
        ++G.op->nmove;
        if (this != &o) { this->v = o.v; o.v = MOVED; }
        return *this;
    }
    friend bool operator==(const Mo& a, const Mo& b) { a.ok("=="); b.ok("=="); fault_point(K_EQ); return rel_eq(a.v == b.v); }
    friend bool operator<(const Mo& a, const Mo& b) { a.ok("<"); b.ok("<"); fault_point(K_LT); return rel_lt(a.v < b.v); }
    friend std::size_t hash_value(const Mo& a) { a.ok("hash"); fault_point(K_HASH); return static_cast<std::size_t>(mix(ID, static_cast<u64>(a.v))); }
    template <class C, class T>
    friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& os, const Mo& a) {
        a.ok("<<"); fault_point(K_STREAM); os << ID; fault_point(K_STREAM); os << C('#') << a.v; return os;
    }
};


// One-byte tracer: smaller than a pointer.
template <int ID, unsigned F = 0>
class Tiny {
    signed char b;
public:
    static const int id = ID;
    static const unsigned flags = F;
    bool ok(const char* what) const { return obj_check(this, ID, what); }
    int get() const { return b; }
    void put(int x) { b = static_cast<signed char>(x); }
    Tiny() noexcept((F & F_NTDEF) != 0) {
        pt(K_DEF, std::integral_constant<bool, (F & F_NTDEF) != 0>());
        obj_birth(this, 1, ID); b = DEFV;
    }
    explicit Tiny(int x, int) { obj_birth(this, 1, ID); put(x); }
    Tiny(const Tiny& o) noexcept((F & F_NTCOPY) != 0) {
        o.ok("copy source");
        pt(K_COPY, std::integral_constant<bool, (F & F_NTCOPY) != 0>());
        ++G.op->ncopy; if (F & F_NTMOVE) ++G.op->ncopy_nt;
        obj_birth(this, 1, ID); b = o.b;
    }
    Tiny(Tiny&& o) noexcept((F & F_NTMOVE) != 0) {
        o.ok("move source");
        pt(K_MOVE, std::integral_constant<bool, (F & F_NTMOVE) != 0>());
        ++G.op->nmove;
        obj_birth(this, 1, ID); b = o.b; o.b = MOVED;
    }
    ~Tiny() { obj_death(this, 1, ID); }
    Tiny& operator=(const Tiny& o) {
        ok("copy-assign target"); o.ok("copy-assign source"); fault_point(K_CASSIGN);
        ++G.op->ncopy; if (F & F_NTMOVE) ++G.op->ncopy_nt;
        b = o.b; return *this;
    }
    Tiny& operator=(Tiny&& o) {
        ok("move-assign target"); o.ok("move-assign source"); fault_point(K_MASSIGN);
        ++G.op->nmove;
        if (this != &o) { b = o.b; o.b = MOVED; }
        return *this;
    }
    friend bool operator==(const Tiny& x, const Tiny& y) { x.ok("=="); y.ok("=="); fault_point(K_EQ); return rel_eq(x.b == y.b); }
    friend bool operator<(const Tiny& x, const Tiny& y) { x.ok("<"); y.ok("<"); fault_point(K_LT); return rel_lt(x.b < y.b); }
    friend std::size_t hash_value(const Tiny& a) { a.ok("hash"); fault_point(K_HASH); return static_cast<std::size_t>(mix(ID, static_cast<u64>(a.b))); }
    template <class C, class T>
    friend std::basic_ostream<C, T>& operator<<(std::basic_ostream<C, T>& os, const Tiny& a) {
        a.ok("<<"); fault_point(K_STREAM); os << ID; fault_point(K_STREAM); os << C('#') << int(a.b); return os;
    }
};

// ---------------------------------------------------------------- value traits
// canon(x): the abstract value (and a validity walk); make(v): build; set(x,v): overwrite in place, never fails.
// simple: a moved-from object is MOVED or keeps its value; otherwise any valid value is allowed.
// strong: a failed assignment of the type itself leaves the target unchanged.
template <class T> struct Val;

template <class E> struct ValEl {
    static const bool simple = true, strong = true, pod = false, fp = true;
    static u64 canon(const E& x) { x.ok("content"); ++G.walk; return static_cast<u64>(static_cast<std::int64_t>(x.v)); }
    static E make(int v) { return E(v, 0); }
    static void set(E& x, int v) { x.v = v; }
    static u64 canon_of(int v) { return static_cast<u64>(static_cast<std::int64_t>(v)); }
    static u64 moved() { return canon_of(MOVED); }
    static u64 defv() { return canon_of(DEFV); }
    static int tag() { return E::id; }
};
template <int I, unsigned F, int P, int A> struct Val<El<I, F, P, A> > : ValEl<El<I, F, P, A> > {};
template <int I, unsigned F, int P> struct Val<ElAmp<I, F, P> > : ValEl<ElAmp<I, F, P> > {};
template <int I, unsigned F> struct Val<ElP1<I, F> > : ValEl<ElP1<I, F> > {};
template <int I, unsigned F> struct Val<ElP2<I, F> > : ValEl<ElP2<I, F> > {};
template <int I, unsigned F> struct Val<ElP3<I, F> > : ValEl<ElP3<I, F> > {};
template <int I, unsigned F> struct Val<ElP4<I, F> > : ValEl<ElP4<I, F> > {};
template <int I, unsigned F, int P> struct Val<ElC<I, F, P> > : ValEl<ElC<I, F, P> > {};
template <int I, unsigned F, int P> struct Val<Mo<I, F, P> > : ValEl<Mo<I, F, P> > {};

template <int I, unsigned F> struct Val<Tiny<I, F> > {
    typedef Tiny<I, F> E;
    static const bool simple = true, strong = true, pod = false, fp = true;
    static u64 canon(const E& x) { x.ok("content"); ++G.walk; return canon_of(x.get()); }
    static E make(int v) { return E(v, 0); }
    static void set(E& x, int v) { x.put(v); }
    static u64 canon_of(int v) { return static_cast<u64>(static_cast<std::int64_t>(v)); }
    static u64 moved() { return canon_of(MOVED); }
    static u64 defv() { return canon_of(DEFV); }
    static int tag() { return I; }
};

template <class T, int TAG> struct ValNum {
    static const bool simple = true, strong = true, pod = true, fp = false;
    static u64 canon(const T& x) { return static_cast<u64>(static_cast<std::int64_t>(x)); }
    static T make(int v) {         // small, negative, wide
        v &= 63;
        return static_cast<T>(v % 4 == 3 ? -v : v % 8 == 6 ? v * 1000003 : v);
    }
    static void set(T& x, int v) { x = make(v); }
    static u64 canon_of(int v) { return canon(make(v)); }
    static u64 moved() { return 0; }
    static u64 defv() { return 0; }
    static int tag() { return TAG; }
};
// floating point: both zeros, infinity, NaN and tiny values are among the values; equal is not the same as identical
template <class T, int TAG> struct ValFp : ValNum<T, TAG> {
    static u64 canon(const T& x) { u64 b = 0; std::memcpy(&b, &x, sizeof x); return b; }
    static T make(int v) {
        v &= 63;
        switch (v % 10 == 7 ? v / 10 : v == 2 ? 0 : v == 3 ? 2 : 9) {
        case 0: case 4: return -T(0);
        case 1: case 5: return std::numeric_limits<T>::quiet_NaN();
        case 2: case 6: return T(0);
        case 3: return std::numeric_limits<T>::infinity();
        default: return static_cast<T>(v % 4 == 1 ? -v : v) / 4;
        }
    }
    static void set(T& x, int v) { x = make(v); }
    static u64 canon_of(int v) { return canon(make(v)); }
};
template <> struct Val<int> : ValNum<int, 200> {};
template <> struct Val<char> : ValNum<char, 201> {};
template <> struct Val<short> : ValNum<short, 202> {};
template <> struct Val<unsigned> : ValNum<unsigned, 203> {};
template <> struct Val<double> : ValFp<double, 204> {};
template <> struct Val<long long> : ValNum<long long, 205> {};
template <> struct Val<float> : ValFp<float, 206> {};
template <> struct Val<boost::blank> {
    static const bool simple = true, strong = true, pod = false, fp = false;
    static u64 canon(const boost::blank&) { return 0; }
    static boost::blank make(int) { return boost::blank(); }
    static void set(boost::blank&, int) {}
    static u64 canon_of(int) { return 0; }
    static u64 moved() { return 0; }
    static u64 defv() { return 0; }
    static int tag() { return 210; }
};
template <> struct Val<std::string> {
    static const bool simple = true, strong = true, pod = false, fp = false;
    static u64 canon(const std::string& s) {
        u64 h = 0;
        for (char c : s) h = mix(h, static_cast<unsigned char>(c));
        return h;
    }
    static std::string make(int v) {
        char b[64];
        std::snprintf(b, sizeof b, v % 3 ? "%d" : "a string too long for the small buffer %d", v);
        return b;
    }
    static void set(std::string& s, int v) { s = make(v); }
    static u64 canon_of(int v) { return canon(make(v)); }
    static u64 moved() { return 0; }
    static u64 defv() { return 0; }
    static int tag() { return 211; }
};

} // namespace sim

namespace std {
template <int ID, unsigned F, int PAD, int AL> struct hash<sim::El<ID, F, PAD, AL> > {
    std::size_t operator()(const sim::El<ID, F, PAD, AL>& a) const { return hash_value(a); }
};
template <int ID, unsigned F, int PAD> struct hash<sim::ElAmp<ID, F, PAD> > {
    std::size_t operator()(const sim::ElAmp<ID, F, PAD>& a) const { return hash_value(a); }
};
template <int ID, unsigned F> struct hash<sim::ElP1<ID, F> > { std::size_t operator()(const sim::ElP1<ID, F>& a) const { return hash_value(a); } };
template <int ID, unsigned F> struct hash<sim::ElP2<ID, F> > { std::size_t operator()(const sim::ElP2<ID, F>& a) const { return hash_value(a); } };
template <int ID, unsigned F> struct hash<sim::ElP3<ID, F> > { std::size_t operator()(const sim::ElP3<ID, F>& a) const { return hash_value(a); } };
template <int ID, unsigned F> struct hash<sim::ElP4<ID, F> > { std::size_t operator()(const sim::ElP4<ID, F>& a) const { return hash_value(a); } };
template <int ID, unsigned F, int PAD> struct hash<sim::ElC<ID, F, PAD> > {
    std::size_t operator()(const sim::ElC<ID, F, PAD>& a) const { return hash_value(a); }
};
template <int ID, unsigned F, int PAD> struct hash<sim::Mo<ID, F, PAD> > {
    std::size_t operator()(const sim::Mo<ID, F, PAD>& a) const { return hash_value(a); }
};
}
#endif
