// Concurrency world: three simulated threads, each with its own variants, and a few variants all of them only read.
#ifndef SIM_CONC_H
#define SIM_CONC_H
#include "world.h"
#include "mt.h"
namespace sim {
template <class Cfg> class ConcWorld : public IWorld, public MtJob {
    typedef World<Cfg> W;
    typedef typename W::V V;
    typedef typename W::L L;
    static const int NSH = 3;
    W* w[MT_TASKS];
    W* sh;                 // shared: written before the threads start, only read by them
    Op ops[64];
    int n;
    u64 sg;

    // -------------------------------------------------- operations on the shared variants, from task t
    struct ShGet {
        const V* v; int alt; const void* addr; bool bad;
        template <class T, int I> void operator()() { const T* p = boost::relaxed_get<T>(v); if ((I == alt) != (p != 0) || (p && p != addr)) bad = true; }
    };
    struct One : boost::static_visitor<const void*> { template <class T> const void* operator()(const T& x) const { fault_point(K_VISIT); return std::addressof(x); } };
    struct Two : boost::static_visitor<bool> {
        const void* p; const void* q;
        template <class T, class U> bool operator()(const T& x, const U& y) { p = std::addressof(x); fault_point(K_VISIT); q = std::addressof(y); return true; }
    };
    struct Put {
        const void* x; std::ostream* os;
        template <class T, int I> void operator()() { *os << *static_cast<const T*>(x); }
    };
    static bool shared_put(const Op&, const V&, const Model&, std::false_type) { return true; }
    static bool shared_put(const Op& op, const V& x, const Model& m, std::true_type) {
        FaultyBuf<char> b1(0, 2), b2(0, 2);
        std::ostream o1(&b1), o2(&b2);
        bool ok = attempt(op, P11, [&] { o1 << x; });
        if (!ok) return false;
        Quiet q;
        Put fn = {m.addr, &o2};
        with_type<L>(m.alt, fn);
        if (b1.n != b2.n || std::memcmp(b1.out, b2.out, static_cast<std::size_t>(b1.n < 256 ? b1.n : 256)) || o1.rdstate() != o2.rdstate() || o1.flags() != o2.flags())
            violate(P11, "stream-differs", "writing a shared variant differs from writing its content");
        return true;
    }
    void shared_op(int t, const Op& op) {
        W& me = *w[t];
        int j = op.b % NSH, k = op.alt % NSH, a = op.a % NV;
        const Model mj = sh->s.m[j], mk = sh->s.m[k];
        if (!mj.ex || !mk.ex) return;
        const V& x = sh->s.cat(j);
        const V& y = sh->s.cat(k);
        static const char* const nm[10] = {"copy-construct from shared", "assign from shared", "visit shared", "get of shared", "compare shared",
                                          "hash shared", "compare shared with own", "inspect shared", "output shared", "visit two shared"};
        int mode = op.mode % 10;
        me.begin(op, nm[mode]);
        bool ok = true;
        switch (mode) {
        case 0: {
            me.kill(a);
            me.begin(op, nm[mode]);
            void* p = me.s.raw(a);
            ok = attempt(op, P05, [&] { new (p) V(x); });
            me.born(a, ok, mj.alt, mj.val);
            break;
        }
        case 1: {
            if (!me.s.m[a].ex) return;
            V& v = me.s.at(a);
            ok = attempt(op, P05, [&] { v = x; });
            me.after_asg(op, a, ok, mj.alt, mj.val, mj.heap || (me.info(mj.alt).wrapper && mj.heap_ok), W::FROM_VARIANT);
            break;
        }
        case 2: {
            One one;
            const void* got = mj.addr;
            ok = attempt(op, P07, [&] { got = boost::apply_visitor(one, x); });
            if (got != mj.addr) violate(P07, "visitor-not-content", "visiting a shared variant did not pass its content");
            break;
        }
        case 3: {
            ShGet g = {&x, mj.alt, mj.addr, false};
            attempt(op, P08, [&] { ForTypes<L, ShGet, 0, L::size == 0>::go(g); });
            if (g.bad) violate(P08, "get-disagrees", "value access to a shared variant gave another object");
            break;
        }
        case 4: {
            bool eq = false, lt = false;
            ok = attempt(op, P09, [&] { eq = x == y; lt = x < y; });
            bool weq = mj.alt == mk.alt && mj.val == mk.val;
            if (ok && eq != weq) violate(P09, "comparison", "comparing shared variants gave %d, should be %d", eq, weq);
            if (ok && mj.alt != mk.alt && lt != (mj.alt < mk.alt)) violate(P09, "comparison", "ordering shared variants is wrong");
            break;
        }
        case 5: {
            std::size_t h = 0, h2 = 0;
            boost::hash<V> bh;
            ok = attempt(op, P09, [&] { h = bh(x); h2 = bh(x); });
            if (ok && h != h2) violate(P09, "hash-forms", "hashing a shared variant twice gave two values");
            break;
        }
        case 6: {
            if (!me.s.m[a].ex) return;
            const V& v = me.s.cat(a);
            const Model mv = me.s.m[a];
            bool eq = false;
            ok = attempt(op, P09, [&] { eq = v == x; });
            bool weq = mj.alt == mv.alt && mj.val == mv.val;
            if (ok && eq != weq) violate(P09, "comparison", "comparing with a shared variant gave %d, should be %d", eq, weq);
            break;
        }
        case 8: ok = shared_put(op, x, mj, Bool<Cfg::stream != 0>()); break;
        case 9: {
            Two two;
            two.p = mj.addr; two.q = mk.addr;
            bool got = true;
            ok = attempt(op, P07, [&] { got = boost::apply_visitor(two, x, y); });
            if (ok && (!got || two.p != mj.addr || two.q != mk.addr)) violate(P07, "visitor-not-content", "visiting two shared variants did not pass their contents");
            break;
        }
        default: {
            int wh = -1; const std::type_info* ti = 0; bool em = true;
            attempt(op, P01, [&] { wh = x.which(); ti = &x.type(); em = x.empty(); });
            Observer<L> ob;
            Obs o = sh->s.observe(j, "in a shared variant");
            if (wh != mj.alt || em || o.alt != wh || *ti != *o.ti || o.canon != mj.val) violate(P01, "which-vs-visit", "a shared variant changed while it was only read");
            break;
        }
        }
        me.sign(op, ok, mj.alt, mk.alt, mj.heap, mk.heap);
        me.check(ok, P05);
    }

public:
    ConcWorld() : n(0), sg(0) {
        for (int i = 0; i < MT_TASKS; ++i) { w[i] = new W(); w[i]->alone = false; }
        sh = new W();
        sh->alone = false;
    }
    ~ConcWorld() { for (int i = 0; i < MT_TASKS; ++i) delete w[i]; delete sh; }
    u64 sig() const { return sg; }
    void run(int t, int job) {
        const Op& op = ops[job];
        if (op.c & 4) shared_op(t, op);
        else w[t]->step(op);
    }
    // The plan is the base schedule: each entry is run by its task when its turn comes; a "special" entry limits how far
    // the task's next operation (or, if it is suspended in one, the rest of that) gets before the next entry takes over.
    bool step(const Op& op) {
        if (n < 64) ops[n++] = op;
        return false;
    }
    void finish() {
        // shared variants: values, and one that failed assignments may have left in the heap state
        int i = 0;
        for (int k = 0; k < NSH && i < n; ++i) {
            if (ops[i].code != O_CTOR_VAL && ops[i].code != O_ASG_VAL) continue;
            Op o = ops[i];
            o.code = O_CTOR_VAL; o.a = k; o.f.mask = 0;
            sh->step(o);
            for (u32 q = 0; (o.val & 1) && q < 12 && !G.vio.set && !sh->s.m[k].heap; ++q) {   // try to reach the heap state
                o.code = O_ASG_VAL; o.alt += 1; o.mode = static_cast<int>(q); o.f.mask = 1u << K_COPY | 1u << K_MOVE; o.f.ord = 2 - q / 3 % 3; o.f.sticky = 0; o.f.exc = 0;
                sh->step(o);
            }
            ++k;
            if (G.vio.set) return;
        }
        for (int t = 0; t < MT_TASKS && n > 4; ++t)
            for (int k = 0; k < 2; ++k) {           // each thread starts with two variants of its own
                Op o = ops[(t * 2 + k) % n];
                o.code = O_CTOR_VAL; o.a = k; o.f.mask = 0; o.alt += t; o.mode = 0;
                w[t]->step(o);
                if (G.vio.set) return;
            }
        sh->s.begin_op();
        mt_start(this);
        for (i = 0; i < n && !G.vio.set; ++i) {
            int t = ops[i].c % MT_TASKS;
            if (ops[i].code == O_SPECIAL) {
                u32 steps = 1 + static_cast<u32>(ops[i].mode) % (ops[i].val % 3 == 0 ? 900u : ops[i].val % 3 == 1 ? 150u : 30u);
                if (mt_busy(t)) mt_resume(t, steps); else mt_arm(t, steps);
                continue;
            }
            if (mt_busy(t)) mt_resume(t, 0);
            if (G.vio.set) break;
            mt_job(t, i, static_cast<u32>(ops[i].code * 2 + (ops[i].c >> 2 & 1)));
        }
        for (int t = 0; t < MT_TASKS && !G.vio.set; ++t) if (mt_busy(t)) mt_resume(t, 0);
        sg = mt_trace();
        if (G.vio.set) return;
        G.op = &main_op;
        main_op.reset();
        for (int t = 0; t < MT_TASKS && !G.vio.set; ++t) {
            Quiet q;
            for (int k = 0; k < NV && !G.vio.set; ++k) { w[t]->s.begin_op(); w[t]->s.verify(k, false, P05, "all threads ended"); }
        }
        { Quiet q; for (int k = 0; k < NV && !G.vio.set; ++k) sh->s.verify(k, false, P05, "all threads ended"); }
        for (int t = 0; t < MT_TASKS && !G.vio.set; ++t) w[t]->teardown();
        mt_stop();
        if (!G.vio.set) sh->finish();
    }
};
template <class Cfg> struct RegisterConc {
    static IWorld* make() { return new ConcWorld<Cfg>(); }
    static void gen_ops(u32* w) { Register<Cfg>::gen_ops(w); w[O_SPECIAL] = 30; w[O_CONT] = 1; }
};
#define SIM_CONC(C)                                                                                                    \
    static sim::CfgEntry conc_##C = {C::name(), &sim::RegisterConc<C>::make, &sim::RegisterConc<C>::gen_ops, 0,       \
                                     sim::World<C>::alts_count, 1, 0};                                                \
    static sim::Reg creg_##C(conc_##C);
} // namespace sim
#endif
