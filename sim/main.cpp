// Simulator entry: generates plans from seeds, runs them, replays plan files.
#include "world.h"
#include <cstdarg>
#include <sys/time.h>
#include <unistd.h>
#include <chrono>

namespace sim {
const char* const op_name[O_N] = {
    "default-construct", "construct-from-value", "copy-construct", "move-construct", "destroy", "copy-assign", "move-assign",
    "assign-value", "swap", "mutate", "foreign-construct", "foreign-assign", "construct-from-variant", "assign-from-variant",
    "construct-convertible", "assign-convertible", "visit", "visit2", "visitN", "get", "compare", "hash", "stream",
    "container", "nested", "special"};
CfgEntry* g_cfgs = 0;

struct Plan { const CfgEntry* cfg; u64 seed; int n; Op op[64]; };

static int g_prop = 1;

static void gen(Plan& p, const CfgEntry* cfg, u64 seed) {
    Rng r(seed);
    p.cfg = cfg; p.seed = seed;
    u32 w[O_N];
    const u32 base[O_N] = {2, 6, 3, 3, 1, 8, 7, 9, 4, 3, 2, 3, 2, 4, 1, 2, 0, 0, 0, 0, 0, 0, 0, 1, 6, 0};
    std::memcpy(w, base, sizeof w);
    switch (g_prop) {
    case 7: w[O_VISIT1] = 22; w[O_VISIT2] = 18; w[O_VISITN] = 16; break;
    case 8: w[O_GET] = 36; break;
    case 9: w[O_CMP] = 30; w[O_HASH] = 10; break;
    case 11: w[O_STREAM] = 34; break;
    case 6: w[O_CONT] = 5; w[O_ASG_MOVE] = 14; w[O_SWAP] = 8; w[O_CTOR_MOVE] = 7; w[O_ASG_CONV] = 8; w[O_CTOR_CONV] = 5; w[O_VISIT1] = 3; w[O_GET] = 3; break;
    case 4: w[O_CONT] = 4; w[O_VISIT1] = 6; w[O_VISIT2] = 4; w[O_CMP] = 6; w[O_HASH] = 2; w[O_SWAP] = 7; w[O_GET] = 4; w[O_STREAM] = 4; break;
    case 1: case 2: case 3: case 12: w[O_VISIT1] = 3; w[O_GET] = 3; w[O_CMP] = 3; w[O_HASH] = 1; break;
    case 5: w[O_CONT] = 4; break;
    case 13: w[O_VISIT1] = 6; w[O_VISIT2] = 3; w[O_GET] = 4; w[O_CMP] = 4; w[O_HASH] = 3; w[O_CONT] = 2; w[O_STREAM] = 3; break;
    case 10: case 14: w[O_VISIT1] = 5; w[O_GET] = 6; w[O_CMP] = 5; w[O_HASH] = 2; w[O_CONT] = 2; w[O_STREAM] = 2; break;
    default: break;
    }
    cfg->gen_ops(w);
#if !(SIM_GROUPS & GR_VISIT)
    w[O_VISIT1] = 0;
#endif
#if !(SIM_GROUPS & GR_VISIT2)
    w[O_VISIT2] = 0;
#endif
#if !(SIM_GROUPS & GR_MULTI)
    w[O_VISITN] = 0;
#endif
#if !(SIM_GROUPS & GR_GET)
    w[O_GET] = 0;
#endif
#if !(SIM_GROUPS & GR_CMP)
    w[O_CMP] = w[O_HASH] = 0;
#endif
#if !(SIM_GROUPS & GR_STREAM)
    w[O_STREAM] = 0;
#endif
#if !(SIM_GROUPS & GR_CONV)
    w[O_F_CTOR] = w[O_F_ASG] = w[O_CTOR_CONV] = w[O_ASG_CONV] = w[O_CTOR_SRC] = w[O_ASG_SRC] = 0;
#endif
#if !(SIM_GROUPS & GR_CONT)
    w[O_CONT] = 0;
#endif
#if !(SIM_GROUPS & GR_REC)
    w[O_NEST] = 0;
#endif
    // swarm: drop a few operations, choose a fault regime for this run
    // every fourth run is after content on the heap: faults late in copying and moving, mostly in assignments
    bool heapy = r.chance(1, 4);
    if (heapy) { w[O_ASG_COPY] *= 2; w[O_ASG_MOVE] *= 2; w[O_ASG_VAL] *= 2; w[O_F_CTOR] *= 2; w[O_F_ASG] *= 4; w[O_ASG_CONV] *= 2; w[O_CTOR_CONV] *= 3; }
    u32 total = 0;
    for (int i = 0; i < O_N; ++i) {
        if (i != O_CTOR_VAL && i != O_ASG_VAL && i != O_SPECIAL && r.chance(1, 6)) w[i] = 0;
        total += w[i];
    }
    const u32 pct[6] = {0, 25, 40, 55, 70, 90};
    u32 fault_pct = pct[heapy ? 1 + r.below(3) : r.below(6)];
    u32 mask_mode = r.below(6), sticky_pct = r.chance(1, 3) ? 50 : 5;
    u32 few_slots = r.chance(1, 3) ? 2 : NV;
    u32 few_alts = r.chance(1, 4) ? 2 : 1000;
    p.n = 0;
    int n = 4 + static_cast<int>(r.below(r.chance(1, 5) ? 44 : 16));
    if (cfg->conc) n = 16 + static_cast<int>(r.below(48));
    for (int i = 0; i < n && p.n < 64; ++i) {
        Op& o = p.op[p.n++];
        std::memset(&o, 0, sizeof o);
        if (i < 2) { o.code = O_CTOR_VAL; o.a = i; }
        else {
            u32 k = r.below(total);
            int c = 0;
            while (k >= w[c]) { k -= w[c]; ++c; }
            o.code = c;
            o.a = static_cast<int>(r.below(few_slots));
        }
        o.b = static_cast<int>(r.below(r.chance(1, 2) ? few_slots : 16));
        if (i > 2 && p.op[i - 1].f.mask && r.chance(1, 2)) {     // keep working with what a fault may have left behind
            if (r.chance(1, 2)) o.a = p.op[i - 1].a; else o.b = p.op[i - 1].a;
        }
        o.c = static_cast<int>(r.below(16));
        o.mode = static_cast<int>(r.below(720720));
        o.alt = static_cast<int>(r.below(1u << 16));
        if (few_alts == 2 && cfg->nalts > 2) o.alt = static_cast<int>((seed >> 8 & 0xff) + r.below(2));
        o.val = 1 + static_cast<int>(r.below(r.chance(1, 3) ? 3 : 60));
        u32 ctx = i >= 2 && !cfg->conc && r.chance(1, 10) ? 1 + r.below(2) : 0;
        if (i >= 2 && r.chance(fault_pct, 100)) {
            u32 mm = mask_mode == 5 ? r.below(5) : mask_mode;
            if (heapy) mm = r.chance(3, 4) ? 1 : 4;
            switch (mm) {
            case 0: o.f.mask = M_VALUE; break;
            case 1: o.f.mask = 1u << K_COPY | 1u << K_MOVE; break;
            case 2: o.f.mask = 1u << K_ALLOC; break;
            case 3: o.f.mask = static_cast<u32>(r.next()) & M_VALUE; break;
            default: o.f.mask = M_VALUE & ~(1u << K_ALLOC); break;
            }
            o.f.ord = r.chance(1, 2) ? 0 : r.below(r.chance(1, 4) ? 12 : 4);
            if (heapy) o.f.ord = r.chance(3, 4) ? 1 + r.below(2) : o.f.ord;
            o.f.sticky = r.chance(sticky_pct, 100);
            o.f.exc = r.below(3);
        }
        o.f.exc += 3 * ctx;
    }
}

static void print_plan(const Plan& p, std::FILE* f) {
    std::fprintf(f, "cfg %s\nprop %d\nseed %llu\n", p.cfg->name, g_prop, (unsigned long long)p.seed);
    for (int i = 0; i < p.n; ++i) {
        const Op& o = p.op[i];
        std::fprintf(f, "op %d a=%d b=%d c=%d mode=%d alt=%d val=%d fault=%x:%u:%u:%u  # %s", o.code, o.a, o.b, o.c, o.mode, o.alt, o.val,
                     o.f.mask, o.f.ord, o.f.sticky, o.f.exc, op_name[o.code]);
        if (o.f.mask) {
            std::fprintf(f, "; fault #%u of {", o.f.ord);
            for (int k = 0; k < K_N; ++k) if (o.f.mask >> k & 1) std::fprintf(f, "%s ", kind_name[k]);
            std::fprintf(f, "}%s", o.f.sticky ? " and all later" : "");
        }
        if (o.f.exc >= 3) std::fprintf(f, o.f.exc / 3 == 1 ? "; inside an exception handler" : "; in a destructor during stack unwinding");
        std::fprintf(f, "\n");
    }
}
static const CfgEntry* find_cfg(const char* name) {
    for (CfgEntry* e = g_cfgs; e; e = e->next) if (!std::strcmp(e->name, name)) return e;
    return 0;
}
static bool read_plan(Plan& p, std::FILE* f) {
    char line[512];
    p.n = 0; p.cfg = 0;
    while (std::fgets(line, sizeof line, f)) {
        char nm[128];
        unsigned long long s;
        Op o;
        std::memset(&o, 0, sizeof o);
        if (std::sscanf(line, "cfg %127s", nm) == 1) p.cfg = find_cfg(nm);
        else if (std::sscanf(line, "prop %d", &g_prop) == 1) {}
        else if (std::sscanf(line, "seed %llu", &s) == 1) p.seed = s;
        else if (std::sscanf(line, "op %d a=%d b=%d c=%d mode=%d alt=%d val=%d fault=%x:%u:%u:%u", &o.code, &o.a, &o.b, &o.c, &o.mode, &o.alt,
                             &o.val, &o.f.mask, &o.f.ord, &o.f.sticky, &o.f.exc) == 11 && p.n < 64)
            p.op[p.n++] = o;
    }
    return p.cfg != 0;
}

// distinct signatures
static u64* sset; static std::size_t scap, scnt;
static bool sset_add(u64 h) {
    if (!h) h = 1;
    if (scnt * 2 >= scap) {
        std::size_t oc = scap; u64* os = sset;
        scap = oc ? oc * 2 : 1 << 14;
        sset = static_cast<u64*>(std::calloc(scap, 8));
        scnt = 0;
        for (std::size_t i = 0; i < oc; ++i) if (os[i]) sset_add(os[i]);
        std::free(os);
    }
    std::size_t i = h & (scap - 1);
    while (sset[i] && sset[i] != h) i = (i + 1) & (scap - 1);
    if (sset[i] == h) return false;
    sset[i] = h; ++scnt;
    return true;
}

static u64 cfg_hash;

static void run_plan(const Plan& p, bool collect) {
    obj_reset();
    heap_reset();
    main_op.reset();
    G.op = &main_op;
    G.loghash = 0x1234; G.serial = 0; G.events = 0; G.max_events = 2000000;
    G.cfg_tags = p.cfg->tags;
    G.cur_tags = 0; G.op_tags = 0; G.tracking = false;
    std::snprintf(G.where, sizeof G.where, "starting");
    IWorld* w = p.cfg->make();
    for (int i = 0; i < p.n && !G.vio.set; ++i) {
        if (G.verbose) std::fprintf(stderr, "  op %d %s a=%d b=%d mode=%d alt=%d val=%d\n", i, op_name[p.op[i].code], p.op[i].a, p.op[i].b, p.op[i].mode, p.op[i].alt, p.op[i].val);
        bool did = w->step(p.op[i]);
        if (did && collect) { u64 sg = w->sig(); if (sg) sset_add(mix(cfg_hash, sg)); }
    }
    if (!G.vio.set) w->finish();
    if (G.vio.set) print_violation_and_exit();
    if (collect && p.cfg->conc) sset_add(mix(cfg_hash, w->sig()));
    delete w;
}

static void arm_timer(int sec) {
    struct itimerval it; std::memset(&it, 0, sizeof it);
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &it, 0);
}

static int main_(int argc, char** argv) {
    if (argc < 2) return 2;
    std::string cmd = argv[1];
    G.op = &main_op;
    if (cmd == "list") {
        for (CfgEntry* e = g_cfgs; e; e = e->next) std::printf("%s\n", e->name);
        return 0;
    }
    install_handlers();
    if (cmd == "exec") {
        Plan* p = new Plan();
        std::FILE* f = std::fopen(argv[2], "r");
        if (!f || !read_plan(*p, f)) return 2;
        std::fclose(f);
        if (argc > 3) G.verbose = true;
        std::snprintf(g_line, sizeof g_line, "run=0 cfg=%s", p->cfg->name);
        arm_timer(60);
        run_plan(*p, false);
        std::printf("OK hash=%016llx\n", (unsigned long long)G.loghash);
        return 0;
    }
    // batch|plan|hashes PROP CFG SEED START COUNT [SIGFILE SECONDS]
    if (argc < 7) return 2;
    g_prop = std::atoi(argv[2]);
    const CfgEntry* cfg = find_cfg(argv[3]);
    if (!cfg) return 2;
    u64 seed = std::strtoull(argv[4], 0, 10);
    u64 start = std::strtoull(argv[5], 0, 10), count = std::strtoull(argv[6], 0, 10);
    for (const char* q = cfg->name; *q; ++q) cfg_hash = mix(cfg_hash, static_cast<unsigned char>(*q));
    Plan* p = new Plan();
    double limit = argc > 8 ? std::atof(argv[8]) : 0;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    u64 done = 0, hashes = 0, steps = 0;
    for (u64 i = start; i < start + count; ++i) {
        gen(*p, cfg, mix(mix(seed, cfg_hash), i));
        std::snprintf(g_line, sizeof g_line, "run=%llu cfg=%s", (unsigned long long)i, cfg->name);
        if (cmd == "plan") { print_plan(*p, stdout); return 0; }
        if (done % 64 == 0) {
            arm_timer(60);
            // wall clock bounds the batch only between runs; it never influences a run
            if (limit > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) break;
        }
        run_plan(*p, true);
        steps += G.events;
        hashes = mix(hashes, G.loghash);
        if (cmd == "hashes") std::printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)G.loghash);
        ++done;
    }
    std::printf("D done=%llu ops=%llu failed=%llu points=%llu events=%llu hash=%016llx distinct=%zu\n", (unsigned long long)done,
                (unsigned long long)G.st.ops, (unsigned long long)G.st.ops_failed, (unsigned long long)G.st.points,
                (unsigned long long)steps, (unsigned long long)hashes, scnt);
    std::printf("F");
    for (int k = 0; k < K_N; ++k) std::printf(" %s=%llu", kind_name[k], (unsigned long long)G.st.faults[k]);
    std::printf("\nP");
    for (int k = 0; k < PR_N; ++k) std::printf(" %s=%llu", probe_name[k], (unsigned long long)G.st.probes[k]);
    std::printf("\n");
    if (argc > 7 && argv[7][0] != '-') {
        std::FILE* f = std::fopen(argv[7], "wb");
        if (f) { for (std::size_t i = 0; i < scap; ++i) if (sset[i]) std::fwrite(&sset[i], 8, 1, f); std::fclose(f); }
    }
    return 0;
}
} // namespace sim
int main(int argc, char** argv) { return sim::main_(argc, argv); }
