#include "mt.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <ucontext.h>
#include <pthread.h>
#include <sys/mman.h>

extern "C" { extern char __libc_single_threaded; }

namespace sim {
namespace {
struct EhGlobals { void* caught; unsigned int uncaught; };
struct Task {
    ucontext_t ctx;
    char* stack;
    bool busy, arm;
    u32 budget;          // steps until suspension (0: none)
    u32 armed[16];
    int narm, pos;
    int job; u32 label;
    OpState op;
    u32 cur_tags; char where[200]; bool tracking; u64 walk; OpState* opp;
    EhGlobals eh;
    u64 vc[MT_TASKS];
} T[MT_TASKS];
ucontext_t main_ctx;
EhGlobals main_eh;
u64 trace;
int cur = -1;
int nopreempt;
MtJob* body;
u64 naccess;

// ---------------------------------------------------------------- shadow memory
struct Cell { std::uintptr_t key; u32 gen; unsigned char w[MT_TASKS], r[MT_TASKS]; u64 wc[MT_TASKS], rc[MT_TASKS]; };
const u32 NC = 1u << 16;
Cell* cells;
u32 gen = 1, ncells;
Cell* cell(std::uintptr_t k, bool make) {
    u32 i = static_cast<u32>(mix64(k)) & (NC - 1);
    for (;; i = (i + 1) & (NC - 1)) {
        Cell& c = cells[i];
        if (c.gen != gen) {
            if (!make || ncells > NC * 3 / 4) return 0;
            ++ncells;
            std::memset(&c, 0, sizeof c);
            c.key = k; c.gen = gen;
            return &c;
        }
        if (c.key == k) return &c;
    }
}
struct Sync { std::uintptr_t key; u64 vc[MT_TASKS]; };
Sync syncs[64];
int nsync;
Sync& sync_of(const volatile void* p) {
    std::uintptr_t k = reinterpret_cast<std::uintptr_t>(p);
    for (int i = 0; i < nsync; ++i) if (syncs[i].key == k) return syncs[i];
    if (nsync == 64) nsync = 63;
    std::memset(&syncs[nsync], 0, sizeof(Sync));
    syncs[nsync].key = k;
    return syncs[nsync++];
}
void acquire(const volatile void* p) {
    if (cur < 0) return;
    Sync& s = sync_of(p);
    for (int i = 0; i < MT_TASKS; ++i) if (T[cur].vc[i] < s.vc[i]) T[cur].vc[i] = s.vc[i];
}
void release(const volatile void* p) {
    if (cur < 0) return;
    Sync& s = sync_of(p);
    for (int i = 0; i < MT_TASKS; ++i) if (s.vc[i] < T[cur].vc[i]) s.vc[i] = T[cur].vc[i];
    ++T[cur].vc[cur];
}

void save(Task& t) {
    t.opp = G.op; t.cur_tags = G.cur_tags; t.tracking = G.tracking; t.walk = G.walk;
    std::memcpy(t.where, G.where, sizeof t.where);
    EhGlobals* e = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
    t.eh = *e;
    *e = main_eh;
}
void load(Task& t) {
    G.op = t.opp; G.cur_tags = t.cur_tags; G.tracking = t.tracking; G.walk = t.walk;
    std::memcpy(G.where, t.where, sizeof t.where);
    EhGlobals* e = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
    main_eh = *e;
    *e = t.eh;
}
void suspend() {
    Task& t = T[cur];
    probe(PR_PREEMPT);
    ev(0x6000 + cur);
    trace = mix(trace, mix(t.label, G.op->cnt[K_COPY] * 4096 + G.op->cnt[K_MOVE] * 64 + G.op->allocs + cur * 1000003u));
    save(t);
    swapcontext(&t.ctx, &main_ctx);
    // resumed: enter() has loaded our state
}
void step() {
    if (cur < 0 || nopreempt) return;
    Task& t = T[cur];
    if (t.budget && --t.budget == 0) suspend();
}
void yield_hook(int) { if (G.op->active) step(); }

void fiber() {
    for (;;) {
        Task& t = T[cur];
        body->run(cur, t.job);
        t.busy = false; t.budget = 0;
        save(t);
        swapcontext(&t.ctx, &main_ctx);
    }
}
void enter(int k) {
    Task& t = T[k];
    cur = k;
    OpState* mo = G.op; u32 ct = G.cur_tags; bool tr = G.tracking; u64 wk = G.walk;
    load(t);
    G.yield = &yield_hook;
    swapcontext(&main_ctx, &t.ctx);
    cur = -1;
    G.yield = 0;
    G.op = mo; G.cur_tags = ct; G.tracking = tr; G.walk = wk;
    ev(0x6100 + k);
}
inline bool harness(std::uintptr_t a) {
    return (a >= reinterpret_cast<std::uintptr_t>(&G) && a < reinterpret_cast<std::uintptr_t>(&G + 1))
        || (a >= reinterpret_cast<std::uintptr_t>(&T[0]) && a < reinterpret_cast<std::uintptr_t>(&T[MT_TASKS]))
        || (a >= reinterpret_cast<std::uintptr_t>(&main_op) && a < reinterpret_cast<std::uintptr_t>(&main_op + 1));
}
} // namespace

void mt_region_reset(const void* p, std::size_t n) {
    if (!cells || !n) return;
    std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p) >> 3, b = (reinterpret_cast<std::uintptr_t>(p) + n - 1) >> 3;
    for (; a <= b; ++a)
        if (Cell* c = cell(a, false)) { std::memset(c->w, 0, sizeof c->w); std::memset(c->r, 0, sizeof c->r); }
}

static void access(const volatile void* p, std::size_t n, bool write) {
    if (cur < 0 || !G.op->active || !G.tracking) return;
    std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
    if (harness(a)) return;
    ++naccess;
    for (std::uintptr_t x = a; x < a + n;) {
        std::uintptr_t k = x >> 3, end = (k + 1) << 3;
        if (end > a + n) end = a + n;
        unsigned char mask = static_cast<unsigned char>(((1u << (end - x)) - 1) << (x & 7));
        if (Cell* c = cell(k, true)) {
            for (int u = 0; u < MT_TASKS; ++u) {
                if (u == cur) continue;
                bool ww = (c->w[u] & mask) && c->wc[u] > T[cur].vc[u];
                bool rr = write && (c->r[u] & mask) && c->rc[u] > T[cur].vc[u];
                if (ww || rr)
                    violate(P13, "data-race", "task %d %s memory that task %d %s, with nothing ordering the two, while %s", cur,
                            write ? "writes" : "reads", u, ww ? "writes" : "reads", G.where);
            }
            if (write) { if (c->wc[cur] != T[cur].vc[cur]) { c->w[cur] = 0; } c->w[cur] |= mask; c->wc[cur] = T[cur].vc[cur]; }
            else { if (c->rc[cur] != T[cur].vc[cur]) { c->r[cur] = 0; } c->r[cur] |= mask; c->rc[cur] = T[cur].vc[cur]; }
        }
        x = end;
    }
    step();
}

void mt_start(MtJob* b) {
    if (!cells) {
        cells = static_cast<Cell*>(mmap(0, sizeof(Cell) * NC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        __libc_single_threaded = 0;
    }
    G.region = &mt_region_reset;
    body = b; trace = 1;
    ++gen; ncells = 0; nsync = 0; cur = -1; nopreempt = 0;
    const std::size_t SZ = 1 << 18;
    for (int i = 0; i < MT_TASKS; ++i) {
        Task& t = T[i];
        if (!t.stack) t.stack = static_cast<char*>(mmap(0, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        getcontext(&t.ctx);
        t.ctx.uc_stack.ss_sp = t.stack;
        t.ctx.uc_stack.ss_size = SZ;
        t.ctx.uc_link = &main_ctx;
        makecontext(&t.ctx, &fiber, 0);
        t.busy = false; t.narm = t.pos = 0; t.budget = 0;
        t.op.reset();
        t.opp = &t.op; t.cur_tags = 0; t.where[0] = 0; t.tracking = false; t.walk = 0;
        std::memset(&t.eh, 0, sizeof t.eh);
        std::memset(t.vc, 0, sizeof t.vc);
        t.vc[i] = 1;
    }
}
bool mt_busy(int k) { return T[k].busy; }
void mt_arm(int k, u32 n) { Task& t = T[k]; if (t.narm < 16) t.armed[t.narm++] = n; }
void mt_job(int k, int job, u32 label) {
    Task& t = T[k];
    t.job = job; t.label = label; trace = mix(trace, label * 4 + k); t.busy = true;
    t.budget = t.narm ? t.armed[0] : 0;
    t.narm = 0;
    enter(k);
}
void mt_resume(int k, u32 n) {
    Task& t = T[k];
    if (!t.busy) return;
    t.budget = n;
    enter(k);
}
void mt_stop() { G.region = 0; }
u64 mt_accesses() { return naccess; }
u64 mt_trace() { return trace; }
} // namespace sim

// ---------------------------------------------------------------- what the instrumented code calls
using sim::access;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read1(void* p) { access(p, 1, false); }
void __tsan_read2(void* p) { access(p, 2, false); }
void __tsan_read4(void* p) { access(p, 4, false); }
void __tsan_read8(void* p) { access(p, 8, false); }
void __tsan_read16(void* p) { access(p, 16, false); }
void __tsan_write1(void* p) { access(p, 1, true); }
void __tsan_write2(void* p) { access(p, 2, true); }
void __tsan_write4(void* p) { access(p, 4, true); }
void __tsan_write8(void* p) { access(p, 8, true); }
void __tsan_write16(void* p) { access(p, 16, true); }
void __tsan_unaligned_read2(void* p) { access(p, 2, false); }
void __tsan_unaligned_read4(void* p) { access(p, 4, false); }
void __tsan_unaligned_read8(void* p) { access(p, 8, false); }
void __tsan_unaligned_read16(void* p) { access(p, 16, false); }
void __tsan_unaligned_write2(void* p) { access(p, 2, true); }
void __tsan_unaligned_write4(void* p) { access(p, 4, true); }
void __tsan_unaligned_write8(void* p) { access(p, 8, true); }
void __tsan_unaligned_write16(void* p) { access(p, 16, true); }
void __tsan_volatile_read1(void* p) { access(p, 1, false); }
void __tsan_volatile_read2(void* p) { access(p, 2, false); }
void __tsan_volatile_read4(void* p) { access(p, 4, false); }
void __tsan_volatile_read8(void* p) { access(p, 8, false); }
void __tsan_volatile_read16(void* p) { access(p, 16, false); }
void __tsan_volatile_write1(void* p) { access(p, 1, true); }
void __tsan_volatile_write2(void* p) { access(p, 2, true); }
void __tsan_volatile_write4(void* p) { access(p, 4, true); }
void __tsan_volatile_write8(void* p) { access(p, 8, true); }
void __tsan_volatile_write16(void* p) { access(p, 16, true); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, sizeof *p, true); }
void __tsan_vptr_read(void** p) { access(p, sizeof *p, false); }
#define ATOMICS(N, T)                                                                                                   \
    T __tsan_atomic##N##_load(const volatile T* p, int) { sim::acquire(p); sim::step(); return *p; }                  \
    void __tsan_atomic##N##_store(volatile T* p, T v, int) { sim::release(p); *p = v; sim::step(); }                  \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { sim::acquire(p); T o = *p; *p = v; sim::release(p); sim::step(); return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { sim::acquire(p); T o = *p; *p = static_cast<T>(o + v); sim::release(p); sim::step(); return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { sim::acquire(p); T o = *p; *p = static_cast<T>(o - v); sim::release(p); sim::step(); return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { sim::acquire(p); T o = *p; *p = static_cast<T>(o & v); sim::release(p); sim::step(); return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { sim::acquire(p); T o = *p; *p = static_cast<T>(o | v); sim::release(p); sim::step(); return o; }  \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { sim::acquire(p); T o = *p; *p = static_cast<T>(o ^ v); sim::release(p); sim::step(); return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int) { sim::acquire(p); T o = *p; *p = static_cast<T>(~(o & v)); sim::release(p); sim::step(); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {                              \
        sim::acquire(p); bool k = *p == *e; if (k) { *p = v; sim::release(p); } else *e = *p; sim::step(); return k; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int m, int n) { return __tsan_atomic##N##_compare_exchange_strong(p, e, v, m, n); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int m, int n) { __tsan_atomic##N##_compare_exchange_strong(p, &e, v, m, n); return e; }
ATOMICS(8, unsigned char)
ATOMICS(16, unsigned short)
ATOMICS(32, unsigned int)
ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// initialisation of function-local statics: runs without preemption, and orders initialiser before users
int __cxa_guard_acquire(unsigned char* g) {
    sim::acquire(g);
    if (*g) return 0;
    ++sim::nopreempt;
    return 1;
}
void __cxa_guard_release(unsigned char* g) { *g = 1; sim::release(g); --sim::nopreempt; }
void __cxa_guard_abort(unsigned char*) { --sim::nopreempt; }
// exception objects live in memory of the C++ runtime: recycled memory has no history
void* __cxa_allocate_exception(std::size_t n) noexcept {
    typedef void* (*F)(std::size_t);
    static F real;
    if (!real) real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "__cxa_allocate_exception"));
    void* p = real(n);
    sim::mt_region_reset(p, n);
    return p;
}
}
