// Simulation core: seeded PRNG, fault points, live-object registry, simulated heap, violation record, event log.
// Everything is C++11 so the library can be simulated in every language mode it supports.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>

namespace sim {

typedef std::uint64_t u64;
typedef std::uint32_t u32;

inline u64 mix64(u64 x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline u64 mix(u64 a, u64 b) { return mix64(a * 0x100000001b3ULL ^ mix64(b)); }

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(mix64(seed ^ 0x5157ULL)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    u32 below(u32 n) { return n ? static_cast<u32>((next() >> 16) % n) : 0; }
    bool chance(u32 num, u32 den) { return below(den) < num; }
};

// ---------------------------------------------------------------- fault kinds
enum Kind {
    K_ALLOC, K_DEF, K_CONV, K_COPY, K_MOVE, K_CASSIGN, K_MASSIGN, K_SWAP, K_EQ, K_LT, K_HASH, K_STREAM, K_VISIT, K_SBUF,
    K_N
};
extern const char* const kind_name[K_N];
const u32 M_ALL = (1u << K_N) - 1;
const u32 M_VALUE = M_ALL & ~(1u << K_SBUF);

struct Fault {           // what may go wrong during one operation
    u32 mask;            // kinds that can fail (0: none)
    u32 ord;             // the ord-th point of those kinds fails ...
    u32 sticky;          // ... and, if set, every later one too
    u32 exc;             // which injected exception type, plus 3 * context the operation runs in (see in_context)
};

// ---------------------------------------------------------------- injected exceptions (leaf types: slicing is visible)
struct BoomBase { u64 serial; virtual ~BoomBase() {} };
struct Boom : BoomBase { explicit Boom(u64 s) { serial = s; } };
struct BoomStdBase : std::exception { const char* what() const noexcept { return "injected"; } };
struct BoomStd : BoomStdBase { u64 serial; explicit BoomStd(u64 s) : serial(s) {} };
struct BoomAlloc : std::bad_alloc { u64 serial; explicit BoomAlloc(u64 s) : serial(s) {} };

// ---------------------------------------------------------------- per-task operation state
struct OpState {
    bool active;
    Fault f;
    u32 seen;            // masked points seen
    u32 fired;           // faults fired in this op
    u32 cnt[K_N];        // points seen by kind
    u64 ser_lo, ser_hi;  // serials thrown
    u32 last_kind, last_exc, first_ord;
    u32 allocs, frees;
    u32 ncopy_nt;        // copies (construct/assign) of nothrow-movable tracers
    u32 ncopy;           // copies of any tracer
    u32 nmove;
    const void* vseen;   // object a function-pointer visitor was given
    void reset() { std::memset(this, 0, sizeof *this); }
};

// ---------------------------------------------------------------- properties as bits
#define PB(n) (1u << ((n) - 1))
const u32 P01 = PB(1), P02 = PB(2), P03 = PB(3), P04 = PB(4), P05 = PB(5), P06 = PB(6), P07 = PB(7), P08 = PB(8), P09 = PB(9), P10 = PB(10), P11 = PB(11), P12 = PB(12), P13 = PB(13), P14 = PB(14);

struct Violation {
    bool set;
    u32 tags;
    char cls[80];
    char msg[400];
};

struct Stats {
    u64 ops, ops_failed, points, faults[K_N], probes[64];
};

struct Global {
    OpState* op;         // state of the operation the running task is in
    Violation vio;
    u64 loghash;
    u64 serial;
    u64 events, max_events;
    u32 cfg_tags;        // properties any violation of this configuration also counts for
    u32 op_tags;         // properties any violation during this operation also counts for
    u32 cur_tags;        // properties a crash right now counts for
    char where[200];     // what is running now, for crash reports
    Stats st;
    bool verbose;
    u64 walk;            // tracers met while walking contents
    u32 exact_blocks;
    int relation;        // elements compare: 0 by value, 1 nothing equals or precedes anything (as NaN), 2 everything is equal
    bool tracking;       // allocations now belong to the system under test
    void (*yield)(int);  // scheduler hook (concurrency simulation)
    void (*region)(const void*, std::size_t);   // memory was allocated or freed (concurrency simulation)
};
extern Global G;
extern OpState main_op;
inline bool rel_eq(bool e) { return G.relation ? G.relation == 2 : e; }
inline bool rel_lt(bool l) { return G.relation ? false : l; }

void ev(u64 a);                          // add to the event-log hash
void violate(u32 tags, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
void fault_point(Kind k);                // may throw
void note_point(Kind k);                 // counts, cannot throw
void probe(int i);
enum {
    PR_HEAP, PR_FALLBACK, PR_FROM_HEAP, PR_TO_HEAP, PR_BOTH_HEAP, PR_SWAP_FAIL, PR_VISIT_THROW, PR_BADGET, PR_MOVEDFROM,
    PR_SELF, PR_FAILED_ASSIGN, PR_NESTED, PR_CONVERT, PR_CMP_THROW, PR_HASH, PR_SBUF_FAIL, PR_BADVISIT, PR_PREEMPT,
    PR_CONTAINER, PR_RECOVERED, PR_LARGE_INDEX, PR_HANDLER, PR_UNWIND, PR_N
};
extern const char* const probe_name[PR_N];

// ---------------------------------------------------------------- live tracer objects
void obj_birth(const void* p, std::size_t n, int type);
void obj_death(const void* p, std::size_t n, int type);
bool obj_check(const void* p, int type, const char* what);   // false (and a violation) if p is not a live tracer
std::size_t obj_count();
void obj_reset();

// ---------------------------------------------------------------- simulated heap
std::size_t heap_tracked();              // blocks the system under test owns
void heap_check(const char* when);       // canaries, leaks of freed blocks
void heap_reset();
bool heap_owns(const void* p);

void in_context(u32 ctx, void (*f)(void*), void* p);     // 0 plainly, 1 inside an exception handler, 2 while the stack is being unwound
void install_handlers();
void print_violation_and_exit() __attribute__((noreturn));
extern char g_line[256];                 // "run=... cfg=..." prefix for reports

struct Quiet {                           // the harness itself works here: no faults, no accounting
    bool was, tr;
    Quiet() : was(G.op->active), tr(G.tracking) { G.op->active = false; }
    ~Quiet() { G.op->active = was; G.tracking = tr; }
};

} // namespace sim
#endif
