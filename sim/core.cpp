#include "core.h"
#include <cstdarg>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif

namespace sim {

const char* const kind_name[K_N] = {"alloc", "default_ctor", "convert_ctor", "copy_ctor", "move_ctor", "copy_assign",
                                    "move_assign", "swap", "equal", "less", "hash", "stream_out", "visitor", "streambuf"};
const char* const probe_name[PR_N] = {
    "content_on_heap_seen", "fallback_seen", "assign_from_heap_content", "assign_to_heap_content", "assign_heap_to_heap",
    "swap_failed", "visitor_threw", "bad_get_seen", "moved_from_seen", "self_op", "assignment_failed", "nested_op",
    "conversion", "comparison_threw", "hashed", "streambuf_failed", "bad_visit_seen", "preempted", "container_op",
    "success_after_failure", "index_over_20", "in_handler", "in_unwinding"};

Global G;
OpState main_op;
char g_line[256];

namespace {
struct Context {};
struct Unwound { void (*f)(void*); void* p; ~Unwound() { f(p); } };
}
void in_context(u32 ctx, void (*f)(void*), void* p) {
    if (ctx == 0) { f(p); return; }
    probe(ctx == 1 ? PR_HANDLER : PR_UNWIND);
    try {
        if (ctx == 1) throw Context();
        Unwound u = {f, p};
        throw Context();
    } catch (const Context&) { if (ctx == 1) f(p); }
}

void ev(u64 a) {
    G.loghash = mix(G.loghash, a);
    if (++G.events > G.max_events && G.max_events) {
        if (!G.vio.set)
            violate(G.cur_tags | P01, "runaway", "more than %llu simulated events in one run while %s",
                    (unsigned long long)G.max_events, G.where);
        print_violation_and_exit();
    }
}

void violate(u32 tags, const char* cls, const char* fmt, ...) {
    if (G.vio.set) return;
    G.vio.set = true;
    G.vio.tags = tags | G.cfg_tags | G.op_tags;
    std::snprintf(G.vio.cls, sizeof G.vio.cls, "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(G.vio.msg, sizeof G.vio.msg, fmt, ap);
    va_end(ap);
}

void probe(int i) { ++G.st.probes[i]; }

void note_point(Kind k) {
    OpState& o = *G.op;
    ev(0x100 + k);
    if (G.yield) G.yield(k);
    if (!o.active) return;
    ++o.cnt[k];
    ++G.st.points;
}

void fault_point(Kind k) {
    OpState& o = *G.op;
    ev(0x200 + k);
    if (G.yield) G.yield(k);
    if (!o.active) return;
    ++o.cnt[k];
    ++G.st.points;
    if (!(o.f.mask >> k & 1u)) return;
    u32 n = o.seen++;
    if (n < o.f.ord || (n > o.f.ord && !o.f.sticky)) return;
    ++o.fired;
    ++G.st.faults[k];
    u64 s = ++G.serial;
    if (!o.ser_lo) { o.ser_lo = s; o.first_ord = n; }
    o.ser_hi = s;
    o.last_kind = k;
    u32 e = k == K_ALLOC ? 2 : o.f.exc % 3;
    o.last_exc = e;
    ev(0x300 + k * 8 + e);
    if (G.verbose) std::fprintf(stderr, "    ! fault %s #%u\n", kind_name[k], n);
    if (e == 0) throw Boom(s);
    if (e == 1) throw BoomStd(s);
    throw BoomAlloc(s);
}

// ---------------------------------------------------------------- live objects: sorted array of intervals
struct Live { std::uintptr_t p; u32 n; int type; };
static Live* lv;
static std::size_t lvn, lvcap;

static std::size_t lower(std::uintptr_t p) {
    std::size_t a = 0, b = lvn;
    while (a < b) { std::size_t m = (a + b) / 2; if (lv[m].p < p) a = m + 1; else b = m; }
    return a;
}
std::size_t obj_count() { return lvn; }
void obj_reset() { lvn = 0; }

void obj_birth(const void* q, std::size_t n, int type) {
    std::uintptr_t p = reinterpret_cast<std::uintptr_t>(q);
    std::size_t i = lower(p);
    if (i < lvn && lv[i].p < p + n)
        violate(P02 | P01 | G.cur_tags, "constructed-over-live", "an object was constructed over a live object while %s", G.where);
    else if (i > 0 && lv[i - 1].p + lv[i - 1].n > p)
        violate(P02 | P01 | G.cur_tags, "constructed-over-live", "an object was constructed inside a live object while %s", G.where);
    if (lvn == lvcap) {
        lvcap = lvcap ? lvcap * 2 : 256;
        lv = static_cast<Live*>(std::realloc(lv, lvcap * sizeof(Live)));
    }
    std::memmove(lv + i + 1, lv + i, (lvn - i) * sizeof(Live));
    lv[i].p = p; lv[i].n = static_cast<u32>(n); lv[i].type = type;
    ++lvn;
    ev(0x1000 + type);
}

void obj_death(const void* q, std::size_t, int type) {
    std::uintptr_t p = reinterpret_cast<std::uintptr_t>(q);
    std::size_t i = lower(p);
    ev(0x2000 + type);
    if (i >= lvn || lv[i].p != p) {
        violate(P02 | P01 | G.cur_tags, "destroyed-not-live", "an object that is not alive was destroyed while %s", G.where);
        return;
    }
    if (lv[i].type != type)
        violate(P02 | P01 | G.cur_tags, "destroyed-wrong-type", "an object was destroyed as another type while %s", G.where);
    std::memmove(lv + i, lv + i + 1, (lvn - i - 1) * sizeof(Live));
    --lvn;
}

bool obj_check(const void* q, int type, const char* what) {
    std::uintptr_t p = reinterpret_cast<std::uintptr_t>(q);
    std::size_t i = lower(p);
    if (i < lvn && lv[i].p == p && lv[i].type == type) return true;
    violate(P02 | P01 | G.cur_tags, "used-outside-lifetime", "%s: object is not alive while %s", what, G.where);
    return false;
}

static bool obj_in(const void* q, std::size_t n) {
    std::uintptr_t p = reinterpret_cast<std::uintptr_t>(q);
    std::size_t i = lower(p);
    return i < lvn && lv[i].p < p + n;
}

// ---------------------------------------------------------------- simulated heap
// Every block of the system under test is tracked, poisoned and quarantined on release.
const u64 CAN = 0xc0ffee5afe5afe01ULL, DEAD = 0xdeadbeefdeadbeefULL;
struct Blk {
    Blk *prev, *next;
    std::size_t n, off;
    u64 flags;           // 1: tracked
    u64 can;
};
static Blk head = {&head, &head, 0, 0, 0, 0};
static std::size_t ntracked;
const int QN = 64;
static Blk* quar[QN];
static int qi;

static std::size_t blk_off(std::size_t al) { return al > sizeof(Blk) ? al : ((sizeof(Blk) + 15) / 16 * 16 + al - 1) / al * al; }

#ifdef SIM_ASAN
extern "C" void __asan_poison_memory_region(void const volatile*, std::size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, std::size_t);
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif

static bool quar_ok(Blk* b) {
    UNPOISON(reinterpret_cast<unsigned char*>(b) + b->off, b->n);
    unsigned char* p = reinterpret_cast<unsigned char*>(b) + b->off;
    for (std::size_t i = 0; i < b->n; ++i) if (p[i] != 0xDD) return false;
    POISON(p, b->n);
    return true;
}

static void* sim_alloc(std::size_t n, std::size_t al, bool can_throw) {
    bool track = G.op && G.tracking && G.op->active;
    if (track) {
        ++G.op->allocs;
        if (can_throw) fault_point(K_ALLOC); else note_point(K_ALLOC);
    }
    if (al < 16) al = 16;
    std::size_t off = blk_off(al);
    void* raw = nullptr;
    if (posix_memalign(&raw, al, off + n + 8)) std::abort();
    Blk* b = reinterpret_cast<Blk*>(static_cast<char*>(raw) + off - sizeof(Blk));
    // keep the raw start recoverable: off is stored, raw = user - off
    b->n = n; b->off = sizeof(Blk); b->flags = (track ? 1 : 0) | (u64(off) << 8); b->can = CAN;
    char* u = static_cast<char*>(raw) + off;
    if (G.region) G.region(u, n);
    std::memset(u, 0xCD, n);
    u64 c = CAN; std::memcpy(u + n, &c, 8);
    b->prev = head.prev; b->next = &head; head.prev->next = b; head.prev = b;
    if (track) ++ntracked;
    return u;
}

static void sim_free(void* u) {
    if (!u) return;
    Blk* b = reinterpret_cast<Blk*>(static_cast<char*>(u) - sizeof(Blk));
    if (G.region && b->can == CAN) G.region(u, b->n);
    if (b->can != CAN) {
        violate(P02 | P01 | G.cur_tags, b->can == DEAD ? "double-free" : "bad-free", "%s while %s",
                b->can == DEAD ? "a memory block was freed twice" : "a pointer that was never allocated was freed", G.where);
        return;
    }
    u64 c; std::memcpy(&c, static_cast<char*>(u) + b->n, 8);
    if (c != CAN) violate(P02, "heap-overrun", "memory past the end of a heap block was written while %s", G.where);
    if (b->flags & 1) {
        --ntracked;
        ++G.op->frees;
        ev(0x4000);
        if (obj_in(u, b->n ? b->n : 1))
            violate(P02, "freed-with-live-object", "memory was freed while an object in it was still alive while %s", G.where);
    }
    b->prev->next = b->next; b->next->prev = b->prev;
    if (!(b->flags & 1)) { b->can = 0; std::free(static_cast<char*>(u) - (b->flags >> 8)); return; }
    b->can = DEAD;
    std::memset(u, 0xDD, b->n);
    POISON(u, b->n);
    Blk* old = quar[qi];
    quar[qi] = b;
    qi = (qi + 1) % QN;
    if (old) {
        if (!quar_ok(old)) violate(P02, "write-after-free", "freed memory was written while %s", G.where);
        old->can = 0;
        UNPOISON(reinterpret_cast<char*>(old) + old->off, old->n);
        std::free(reinterpret_cast<char*>(old) + old->off - (old->flags >> 8));
    }
}

std::size_t heap_tracked() { return ntracked; }
bool heap_owns(const void* p) {
    for (Blk* b = head.next; b != &head; b = b->next) {
        const char* u = reinterpret_cast<const char*>(b) + b->off;
        if ((b->flags & 1) && p >= u && p < u + (b->n ? b->n : 1)) return true;
    }
    return false;
}
void heap_check(const char* when) {
    for (Blk* b = head.next; b != &head; b = b->next) {
        if (!(b->flags & 1)) continue;
        u64 c; std::memcpy(&c, reinterpret_cast<char*>(b) + b->off + b->n, 8);
        if (c != CAN) violate(P02, "heap-overrun", "memory past the end of a heap block was written (%s)", when);
    }
    for (int i = 0; i < QN; ++i)
        if (quar[i] && !quar_ok(quar[i])) violate(P02, "write-after-free", "freed memory was written (%s)", when);
}
void heap_reset() {      // forget blocks of an abandoned run
    for (Blk* b = head.next; b != &head; b = b->next) b->flags &= ~u64(1);
    ntracked = 0;
}

// ---------------------------------------------------------------- crash handling
void print_violation_and_exit() {
    char buf[1200];
    int n = std::snprintf(buf, sizeof buf, "\nV %s class=%s tags=%x hash=%016llx msg=%s\n", g_line, G.vio.cls, G.vio.tags,
                          (unsigned long long)G.loghash, G.vio.msg);
    if (n > 0) { ssize_t r = write(1, buf, static_cast<std::size_t>(n)); (void)r; }
    _exit(10);
}

static void on_signal(int s) {
    if (!G.vio.set) {
        const char* nm = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS"
                       : s == SIGILL ? "SIGILL" : "SIGVTALRM";
        char cls[40];
        std::snprintf(cls, sizeof cls, s == SIGVTALRM ? "hang" : "crash-%s", nm);
        violate(P01 | P02 | G.cur_tags, cls, "%s while %s", s == SIGVTALRM ? "no progress" : nm, G.where);
    }
    print_violation_and_exit();
}
static void on_terminate() {
    violate(P04 | P01 | G.cur_tags, "terminate", "std::terminate was called while %s", G.where);
    print_violation_and_exit();
}
#ifdef SIM_ASAN
extern "C" void __asan_set_death_callback(void (*)(void));
static void on_asan() {
    if (!G.vio.set) violate(P02 | P01 | G.cur_tags, "asan", "AddressSanitizer report while %s", G.where);
    print_violation_and_exit();
}
#endif

void install_handlers() {
    static char alt[1 << 16];
    stack_t ss; std::memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    int sigs[] = {SIGABRT, SIGFPE, SIGILL, SIGVTALRM, SIGSEGV, SIGBUS};
    for (int s : sigs) {
        struct sigaction sa; std::memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        sigaction(s, &sa, nullptr);
    }
    std::set_terminate(on_terminate);
#ifdef SIM_ASAN
    __asan_set_death_callback(on_asan);
#endif
}

} // namespace sim

void* operator new(std::size_t n) { return sim::sim_alloc(n, 16, true); }
void* operator new[](std::size_t n) { return sim::sim_alloc(n, 16, true); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim::sim_alloc(n, 16, false); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim::sim_alloc(n, 16, false); }
void operator delete(void* p) noexcept { sim::sim_free(p); }
void operator delete[](void* p) noexcept { sim::sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::sim_free(p); }
#if __cplusplus >= 201402L
void operator delete(void* p, std::size_t) noexcept { sim::sim_free(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::sim_free(p); }
#endif
#if __cplusplus >= 201703L
void* operator new(std::size_t n, std::align_val_t a) { return sim::sim_alloc(n, static_cast<std::size_t>(a), true); }
void* operator new[](std::size_t n, std::align_val_t a) { return sim::sim_alloc(n, static_cast<std::size_t>(a), true); }
void operator delete(void* p, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { sim::sim_free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { sim::sim_free(p); }
#endif

#include <ios>
namespace sim { int stream_slot() { static const int k = std::ios_base::xalloc(); return k; } }
