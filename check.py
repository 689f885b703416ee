#!/usr/bin/env python3
"""Driver of the simulation checks: builds the simulator from /repo's working tree, runs seeded batches, gates,
minimises and reports violations, writes evidence.

  check.py C01 [quick|thorough]      run a check
  check.py replay FILE               re-run a replay file; exit 1 if the recorded violation recurs
  check.py determinism [N]           same seeds twice, different worker layouts: every event hash must match
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
JOBS = int(os.environ.get("SIM_JOBS", "0")) or os.cpu_count() or 8
CONTROL_INC = "/usr/include"          # the system copy of the library: control for compile errors

G_VISIT, G_GET, G_CMP, G_STREAM, G_CONV, G_CONT, G_MULTI, G_REC, G_VISIT2 = 1, 2, 4, 8, 16, 32, 64, 128, 256

FLAVOURS = {
    "g17": ["g++", "-std=c++17", "-O1", "-g1"],
    "g11": ["g++", "-std=c++11", "-O1", "-g1"],
    "g14min": ["g++", "-std=c++14", "-O2", "-g1", "-DNDEBUG", "-DBOOST_VARIANT_MINIMIZE_SIZE"],
    "c20san": ["clang++", "-std=c++20", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
               "-fno-sanitize=alignment,vptr", "-fno-omit-frame-pointer"],
    "c11": ["clang++", "-std=c++11", "-O1", "-g1"],
    "g23": ["g++", "-std=c++23", "-O2", "-g1", "-w"],
    "g17rel": ["g++", "-std=c++17", "-O1", "-g1", "-DBOOST_VARIANT_USE_RELAXED_GET_BY_DEFAULT"],
}
# simulated threads: the library's code is compiled with memory-access instrumentation, which calls sim/mt.cpp
INSTRUMENTED = {"g17mt": ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"],
                "g11mt": ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]}
INSTRUMENTED["g17mt0"] = INSTRUMENTED["g17mt"]      # unoptimised: no access of the source is merged or removed
FLAVOURS["g17mt"] = FLAVOURS["g17"]
FLAVOURS["g17mt0"] = ["g++", "-std=c++17", "-O0", "-g1"]
FLAVOURS["g11mt"] = FLAVOURS["g11"]


def base_units(fl):
    return ["core", "main"] + (["mt"] if fl in INSTRUMENTED else [])


def unit_flags(fl, u):
    return FLAVOURS[fl] + (["-O1", "-g0"] if u == "cfg_huge2" else []) + (INSTRUMENTED.get(fl, []) if u.startswith("cfg_") else [])


ALL = ["cfg_a", "cfg_mix", "cfg_nt", "cfg_blank", "cfg_blank2", "cfg_fb", "cfg_pod", "cfg_mo", "cfg_co", "cfg_al",
       "cfg_one", "cfg_rw", "cfg_tree", "cfg_node", "cfg_json", "cfg_ntc", "cfg_poly", "cfg_over", "cfg_nest", "cfg_ref",
       "cfg_odd", "cfg_oddw", "cfg_big", "cfg_mwrap", "cfg_derv", "cfg_own", "cfg_scal"]
# units that need more operation groups than the property's own selection
UNIT_GROUPS = {"cfg_multi": G_MULTI | G_VISIT, "cfg_conc3": G_MULTI | G_VISIT}
CONC = ["cfg_conc", "cfg_conc2", "cfg_conc3", "cfg_conc4"]
ALLC = ALL + ["cfg_conv"]
CORE = ["cfg_a", "cfg_mix", "cfg_blank", "cfg_fb", "cfg_rw", "cfg_tree"]
# per property: groups of operations compiled in, and per tier the (flavour, units, runs per configuration)
PROPS = {
    "C01": dict(n=1, groups=G_CONV | G_CONT | G_REC | G_GET | G_VISIT,
                quick=[("g17", ALLC, 60000), ("g14min", CORE, 30000), ("c20san", CORE, 5000)]),
    "C02": dict(n=2, groups=G_CONV | G_CONT | G_REC | G_GET | G_VISIT,
                quick=[("g17", ALLC, 60000), ("c20san", CORE + ["cfg_pod", "cfg_json", "cfg_al", "cfg_ref", "cfg_nest"], 8000), ("g11", CORE, 20000)]),
    "C03": dict(n=3, groups=G_CONV | G_REC | G_GET | G_CMP | G_VISIT,
                quick=[("g17", ALLC, 80000), ("g14min", CORE + ["cfg_ntc"], 40000), ("g11", CORE + ["cfg_ntc"], 30000)]),
    "C04": dict(n=4, groups=G_VISIT | G_VISIT2 | G_CMP | G_CONV | G_CONT | G_REC | G_GET | G_STREAM,
                quick=[("g17", ["cfg_a", "cfg_mix", "cfg_nt", "cfg_blank", "cfg_fb", "cfg_mo", "cfg_rw", "cfg_tree", "cfg_ntc", "cfg_nest",
                                "cfg_co", "cfg_pod", "cfg_odd", "cfg_big", "cfg_conv", "cfg_ref", "cfg_node", "cfg_derv", "cfg_own"], 50000), ("g11", ["cfg_a", "cfg_nt", "cfg_ntc", "cfg_mo"], 30000)]),
    "C05": dict(n=5, groups=G_CONV | G_CONT | G_REC,
                quick=[("g17", ALLC, 60000), ("g14min", CORE, 30000), ("g11", CORE + ["cfg_conv"], 20000), ("g23", ["cfg_conv", "cfg_pod", "cfg_own"], 20000)]),
    "C06": dict(n=6, groups=G_VISIT | G_GET | G_CONV | G_CONT | G_REC,
                quick=[("g17", ALLC, 50000), ("g11", ["cfg_a", "cfg_nt", "cfg_mo", "cfg_mix", "cfg_ntc", "cfg_rw"], 30000)]),
    "C07": dict(n=7, groups=G_VISIT | G_VISIT2 | G_CONV,
                quick=[("g17", ["cfg_a", "cfg_mix", "cfg_blank", "cfg_pod", "cfg_mo", "cfg_rw", "cfg_tree", "cfg_co", "cfg_multi",
                                "cfg_large", "cfg_ref", "cfg_nest", "cfg_nt", "cfg_ntc", "cfg_fb", "cfg_odd", "cfg_over", "cfg_node", "cfg_poly", "cfg_derv", "cfg_own", "cfg_scal"], 40000),
                       ("g11", ["cfg_a", "cfg_blank", "cfg_multi"], 30000), ("g23", ["cfg_a", "cfg_multi"], 20000)]),
    "C08": dict(n=8, groups=G_GET | G_CONV,
                quick=[("g17", ALL, 50000), ("g11", CORE + ["cfg_poly"], 20000), ("g17rel", CORE + ["cfg_poly"], 20000), ("g23", ["cfg_poly", "cfg_derv"], 20000)]),
    "C09": dict(n=9, groups=G_CMP | G_CONV | G_REC,
                quick=[("g17", ALL, 50000), ("g14min", CORE, 30000), ("g23", ["cfg_a", "cfg_rw", "cfg_pod", "cfg_one"], 20000)]),
    "C10": dict(n=10, groups=G_VISIT | G_GET | G_CMP | G_STREAM | G_CONT | G_REC,
                quick=[("g17", ["cfg_rw", "cfg_tree", "cfg_tree2", "cfg_node", "cfg_json", "cfg_oddw", "cfg_mwrap", "cfg_own"], 70000),
                       ("c20san", ["cfg_rw", "cfg_tree", "cfg_node", "cfg_mwrap"], 8000), ("g11", ["cfg_rw", "cfg_node", "cfg_mwrap"], 30000)]),
    "C11": dict(n=11, groups=G_STREAM | G_CONV,
                quick=[("g17", ["cfg_a", "cfg_mix", "cfg_nt", "cfg_blank", "cfg_fb", "cfg_pod", "cfg_mo", "cfg_co", "cfg_al",
                                "cfg_one", "cfg_rw", "cfg_node", "cfg_over", "cfg_poly", "cfg_nest", "cfg_odd", "cfg_big", "cfg_ntc", "cfg_ref", "cfg_derv", "cfg_own", "cfg_scal"], 50000),
                       ("c11", ["cfg_a", "cfg_pod", "cfg_rw"], 20000)]),
    "C12": dict(n=12, groups=G_CONV | G_CONT | G_REC | G_GET | G_CMP | G_VISIT,
                quick=[("g17", ALL, 60000), ("g14min", CORE + ["cfg_ntc"], 30000)]),
    "C13": dict(n=13, groups=G_VISIT | G_VISIT2 | G_GET | G_CMP | G_STREAM | G_CONV | G_CONT | G_REC, threads=True,
                rule="one evaluation = one simulated run: three simulated threads, a seeded plan of 16-64 operations, faults and preemption points "
                     "(a thread is suspended after a given number of memory accesses and element operations); distinct_nontrivial = distinct "
                     "interleavings, measured as the sequence of operations started and of suspensions (thread, operation, element operations "
                     "and allocations done so far in it)",
                quick=[("g17mt", CONC, 90000), ("g17mt0", ["cfg_conc", "cfg_conc4"], 30000)],
                thorough=[("g17mt", CONC, 1500000), ("g17mt0", CONC, 200000), ("g11mt", ["cfg_conc", "cfg_conc2", "cfg_conc4"], 600000)]),
    "C14": dict(n=14, groups=G_VISIT | G_VISIT2 | G_GET | G_CMP | G_CONV,
                quick=[("g17", ["cfg_over", "cfg_large", "cfg_large2", "cfg_tree2", "cfg_huge"], 80000), ("g14min", ["cfg_over", "cfg_huge2"], 40000), ("g11", ["cfg_over"], 40000)],
                thorough=[("g17", ["cfg_over", "cfg_large", "cfg_large2", "cfg_tree2", "cfg_huge"], 800000), ("g11", ["cfg_over", "cfg_large"], 300000),
                          ("c20san", ["cfg_over", "cfg_large"], 40000), ("c11", ["cfg_over"], 200000), ("g14min", ["cfg_over", "cfg_large", "cfg_huge", "cfg_huge2"], 300000)]),
}
THOROUGH_MULT = 15

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C")


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(root):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def sim_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(SIM + "/*.h")):
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


class CompileFailure(Exception):
    def __init__(self, cmd, err):
        Exception.__init__(self, err)
        self.cmd, self.err = cmd, err


def compile_one(flags, src, inc, key, groups):
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = flags + ["-w", "-DSIM_GROUPS=%d" % groups] + (["-I" + inc] if inc else []) + ["-c", src, "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        if os.path.exists(tmp):
            os.unlink(tmp)
        raise CompileFailure(cmd, p.stdout)
    os.replace(tmp, obj)
    return obj


def unit_groups(u, units, groups):
    if u in ("core", "mt"):
        return 0
    if u == "main":
        for x in units:
            groups |= UNIT_GROUPS.get(x, 0)
        return groups
    return groups | UNIT_GROUPS.get(u, 0)


def build(plan, groups):
    """plan: {flavour: set(units)} -> {flavour: binary}"""
    rh, sh = tree_hash(os.path.join(REPO, "include")), sim_hash()
    jobs = []
    for fl, units in plan.items():
        for u in base_units(fl) + sorted(units):
            src = os.path.join(SIM, u + ".cpp")
            g = unit_groups(u, units, groups)
            with open(src, "rb") as fh:
                key = sha(" ".join(unit_flags(fl, u)), g, rh if u not in ("core", "mt") else "", sh, fh.read(), u)
            jobs.append((fl, u, src, key, g))
    heavy = {"cfg_huge2": -1, "cfg_huge": 0, "cfg_large": 0, "cfg_large2": 0, "cfg_multi": 0, "cfg_a": 1, "cfg_mix": 1}
    jobs.sort(key=lambda j: (heavy.get(j[1], 2), 0 if "san" in j[0] else 1))
    objs, fails = {}, []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, unit_flags(fl, u), src, os.path.join(REPO, "include"), key, g): (fl, u, src, key)
                for fl, u, src, key, g in jobs}
        for f in cf.as_completed(futs):
            fl, u, src, key = futs[f]
            try:
                objs[(fl, u)] = f.result()
            except CompileFailure as e:
                fails.append((fl, u, src, e))
    if fails:
        fails.sort(key=lambda x: (x[0], x[1]))
        return None, fails
    out = {}
    for fl, units in plan.items():
        os_ = [objs[(fl, u)] for u in base_units(fl) + sorted(units)]
        key = sha(fl, *os_)
        exe = os.path.join(BUILD, "sim-%s-%s" % (fl, key))
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            p = subprocess.run(FLAVOURS[fl] + os_ + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise CheckError("link failed: " + p.stdout[-2000:])
            os.replace(tmp, exe)
        out[fl] = exe
    return out, []


_NOASLR = None


def wrap(cmd):
    """fixed addresses where the system allows it, so that even a bug that reads stray memory repeats exactly"""
    global _NOASLR
    if _NOASLR is None:
        try:
            _NOASLR = subprocess.run(["setarch", "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0
        except OSError:
            _NOASLR = False
    return (["setarch", "-R"] + cmd) if _NOASLR else cmd


VRE = re.compile(r"^V run=(\d+) cfg=(\S+) class=(\S+) tags=([0-9a-f]+) hash=([0-9a-f]+) msg=(.*)$", re.M)


def run_cmd(cmd, timeout):
    try:
        p = subprocess.run(wrap(cmd), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf-8", "replace"), "timeout"


def parse_v(out):
    m = VRE.search(out)
    if not m:
        return None
    return dict(run=int(m.group(1)), cfg=m.group(2), cls=m.group(3), tags=int(m.group(4), 16), hash=m.group(5), msg=m.group(6).strip())


def exec_plan(exe, text):
    fd, p = tempfile.mkstemp(suffix=".plan", dir=BUILD)
    try:
        with os.fdopen(fd, "w") as fh:
            fh.write(text)
        rc, out, err = run_cmd([exe, "exec", p], 120)
        return rc, parse_v(out), out, err
    finally:
        os.unlink(p)


def minimise(exe, text, want, bit):
    head = [l for l in text.splitlines() if l and not l.startswith("op ")]
    ops = [l for l in text.splitlines() if l.startswith("op ")]
    tries = [0]

    def bad(o):
        if tries[0] > 400:
            return False
        tries[0] += 1
        rc, v, _, _ = exec_plan(exe, "\n".join(head + o) + "\n")
        return v is not None and v["cls"] == want["cls"] and v["tags"] & bit

    n = len(ops)
    step = max(1, n // 2)
    while step >= 1:
        i = 0
        while i < len(ops):
            cand = ops[:i] + ops[i + step:]
            if cand and bad(cand):
                ops = cand
            else:
                i += step
        if step == 1:
            break
        step //= 2
    fre = re.compile(r"fault=[0-9a-f]+:\d+:\d+:\d+")
    for i, l in enumerate(ops):
        m = fre.search(l)
        if m and m.group(0) != "fault=0:0:0:0":
            cand = list(ops)
            cand[i] = fre.sub("fault=0:0:0:0", l).split(";")[0]
            if bad(cand):
                ops = cand
    for i, l in enumerate(ops):
        m = re.search(r" val=(\d+)", l)
        if m and int(m.group(1)) > 1:
            cand = list(ops)
            cand[i] = l.replace(m.group(0), " val=1")
            if bad(cand):
                ops = cand
    return "\n".join(head + ops) + "\n"


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = PROPS[pid]
        self.bit = 1 << (self.spec["n"] - 1)
        self.tot = dict(runs=0, ops=0, failed=0, points=0, events=0)
        self.faults, self.probes, self.sigs = {}, {}, set()
        self.cand, self.others, self.stop, self.batches = [], [], False, []
        self.t0 = time.time()
        self.sample_plans = []
        self.sigdir = tempfile.mkdtemp(prefix="sig", dir=BUILD)

    def plan(self):
        q = self.spec["quick"]
        if self.tier == "quick":
            return [(fl, list(us), n) for fl, us, n in q]
        t = self.spec.get("thorough")
        if t:
            return [(fl, list(us), n) for fl, us, n in t]
        base = [(fl, list(us), n * THOROUGH_MULT) for fl, us, n in q]
        have = {fl for fl, _, _ in base}
        units = sorted({u for _, us, _ in q for u in us})
        for fl in ("c20san", "g11", "g14min", "c11", "g23"):
            if fl not in have:
                base.append((fl, units, 30000 if "san" not in fl else 15000))
        return base

    def batch(self, fl, exe, cfg, start, count, limit):
        end = start + count
        cur = start
        nother = 0
        while cur < end and not self.stop:
            sf = os.path.join(self.sigdir, "%s-%s-%d" % (fl, cfg, cur))
            rc, out, err = run_cmd([exe, "batch", str(self.spec["n"]), cfg, str(self.seed), str(cur), str(end - cur), sf, str(limit)], limit + 200)
            v = parse_v(out)
            if v:
                v.update(flavour=fl, exe=exe, start=start, err=err[-600:])
                done = v["run"] - cur
                self.tot["runs"] += done + 1
                if v["tags"] & self.bit or self.needs_preemption(v):
                    self.cand.append(v)
                    self.stop = True
                    return
                self.others.append(v)
                nother += 1
                if nother >= 6:
                    return
                cur = v["run"] + 1
                continue
            if rc != 0:
                raise CheckError("batch %s %s from %d ended with %d: %s" % (fl, cfg, cur, rc, (out + err)[-800:]))
            d = dict(kv.split("=") for kv in re.search(r"^D (.*)$", out, re.M).group(1).split())
            self.tot["runs"] += int(d["done"])
            self.batches.append((fl, cfg, cur, int(d["done"]), d["hash"]))
            for k in ("ops", "failed", "points", "events"):
                self.tot[k] += int(d[k])
            for line, dst in (("F", self.faults), ("P", self.probes)):
                for kv in re.search(r"^%s (.*)$" % line, out, re.M).group(1).split():
                    k, x = kv.split("=")
                    dst[k] = dst.get(k, 0) + int(x)
            if os.path.exists(sf):
                with open(sf, "rb") as fh:
                    b = fh.read()
                self.sigs.update(b[i:i + 8] for i in range(0, len(b), 8))
                os.unlink(sf)
            return

    def needs_preemption(self, v):
        """simulated threads: a wrong result that disappears when no operation is suspended halfway is interference"""
        if not self.spec.get("threads"):
            return False
        text = run_cmd([v["exe"], "plan", str(self.spec["n"]), v["cfg"], str(self.seed), str(v["run"]), "1"], 60)[1]
        serial = "\n".join(l for l in text.splitlines() if "# special" not in l) + "\n"
        if exec_plan(v["exe"], serial)[1] is None and exec_plan(v["exe"], text)[1] is not None:
            self.bit = 0xffffffff
            return True
        return False

    def run(self):
        plan = self.plan()
        want = {}
        for fl, us, n in plan:
            want.setdefault(fl, set()).update(us)
        exes, fails = build(want, self.spec["groups"])
        self.build_s = time.time() - self.t0
        if fails:
            return self.compile_failure(fails)
        jobs = []
        limit = 120 if self.tier == "quick" else 1500
        for fl, us, n in plan:
            rc, out, err = run_cmd([exes[fl], "list"], 60)
            cfgs = sorted(out.split())
            for c in cfgs:
                k = max(1, n // (4000 if "san" not in fl else 700))
                k = min(k, 16)
                per = (n + k - 1) // k
                for i in range(k):
                    jobs.append((fl, exes[fl], c, i * per, min(per, n - i * per), limit))
        jobs.sort(key=lambda j: (j[3], 0 if "san" in j[0] else 1))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(self.batch, *j) for j in jobs]:
                f.result()
        if self.cand:
            return self.report()
        for fl, exe, c, st, n, lim in (jobs[0], jobs[len(jobs) // 2]):
            txt = run_cmd([exe, "plan", str(self.spec["n"]), c, str(self.seed), str(st + n // 2), "1"], 60)[1]
            self.sample_plans.append(txt.strip().split("\n"))
        return None

    def compile_failure(self, fails):
        fl, u, src, e = fails[0]
        # is it the library's interface that no longer compiles, or our sources / this toolchain?
        try:
            compile_one(unit_flags(fl, u), src, None, "control-%d" % os.getpid(), unit_groups(u, set(), self.spec["groups"]))
            os.unlink(os.path.join(BUILD, "obj", "control-%d.o" % os.getpid()))
        except CompileFailure as c:
            raise CheckError("simulator does not compile even against the installed library: " + c.err[-1500:])
        os.makedirs(REPLAYS, exist_ok=True)
        p = os.path.join(REPLAYS, "%s-compile-%s.txt" % (self.pid, sha(src, e.err)))
        errs = [l for l in e.err.splitlines() if "error" in l][:5]
        with open(p, "w") as fh:
            fh.write("kind compile\nprop %s\nflavour %s\nunit %s\ngroups %d\n" % (self.pid, fl, u, self.spec["groups"]))
            fh.write("# uses of the documented interface no longer compile (they do against the installed release)\n")
            for l in errs:
                fh.write("# " + l[:300] + "\n")
        return dict(path=p, cls="does-not-compile", msg="; ".join(x[:160] for x in errs[:2]))

    def report(self):
        self.cand.sort(key=lambda v: (v["flavour"], v["cfg"], v["run"]))
        os.makedirs(REPLAYS, exist_ok=True)
        for v in self.cand:
            rc, text, err = run_cmd([v["exe"], "plan", str(self.spec["n"]), v["cfg"], str(self.seed), str(v["run"]), "1"], 60)
            r = [exec_plan(v["exe"], text)[1] for _ in range(2)]
            if all(x and x["cls"] == v["cls"] and x["hash"] == v["hash"] for x in r):
                small = minimise(v["exe"], text, v, self.bit)
                m = [exec_plan(v["exe"], small)[1] for _ in range(2)]
                if all(m) and m[0] == m[1]:
                    p = os.path.join(REPLAYS, "%s-%s.txt" % (self.pid, sha(small, v["flavour"])))
                    with open(p, "w") as fh:
                        fh.write("kind plan\nprop_id %s\nflavour %s\ngroups %d\nexpect class=%s hash=%s\n# %s\n" % (
                            self.pid, v["flavour"], self.spec["groups"], m[0]["cls"], m[0]["hash"], m[0]["msg"]))
                        fh.write(small)
                    return dict(path=p, cls=m[0]["cls"], msg=m[0]["msg"], cfg=v["cfg"], run=v["run"], flavour=v["flavour"])
            # state left by earlier runs of the process matters (stray memory): replay the whole prefix
            cnt = v["run"] - v["start"] + 1
            cmd = [v["exe"], "batch", str(self.spec["n"]), v["cfg"], str(self.seed), str(v["start"]), str(cnt), "-", "600"]
            r = [parse_v(run_cmd(cmd, 800)[1]) for _ in range(2)]
            if all(x and x["cls"] == r[0]["cls"] and x["run"] == r[0]["run"] and x["tags"] & self.bit for x in r):
                p = os.path.join(REPLAYS, "%s-%s.txt" % (self.pid, sha(str(v), v["flavour"])))
                with open(p, "w") as fh:
                    fh.write("kind batch\nprop_id %s\nflavour %s\ngroups %d\nexpect class=%s\nargs %s\n# %s\n" % (
                        self.pid, v["flavour"], self.spec["groups"], r[0]["cls"], " ".join(cmd[1:]), r[0]["msg"]))
                return dict(path=p, cls=r[0]["cls"], msg=r[0]["msg"], cfg=v["cfg"], run=v["run"], flavour=v["flavour"])
        raise CheckError("a violation was seen but did not replay exactly: %s" % self.cand[0])

    def evidence(self, vio):
        wall = time.time() - self.t0
        samples = []
        seen = set()
        for fl, cfg, st, n, h in self.batches:
            if cfg not in seen and len(samples) < 12:
                seen.add(cfg)
                samples.append("build %s, configuration %s, seed %d, runs %d..%d, event-log hash %s" % (fl, cfg, self.seed, st, st + n - 1, h))
        samples += self.sample_plans
        if vio:
            samples.append("violation %s: %s (replay %s)" % (vio["cls"], vio["msg"], vio["path"]))
        if not samples:
            samples = ["no batch completed"]
        runs = self.tot["runs"]
        secs = max(0.001, wall - getattr(self, "build_s", 0))
        cov = dict(
            evaluations=runs,
            distinct_nontrivial=len(self.sigs),
            rule=self.spec.get("rule") or "one evaluation = one simulated run (a seeded plan of 4-48 operations with its fault schedule, all invariants checked after "
                 "every operation); distinct_nontrivial = distinct (configuration, operation, form, alternatives held by target and source, "
                 "content in place or on the heap for each, outcome incl. which fault kind fired at which ordinal) tuples executed",
            samples=samples,
            operations=self.tot["ops"], operations_with_a_fault=self.tot["failed"], fault_points_passed=self.tot["points"],
            simulated_time="%d simulator events (the library has no clock; time is the event count)" % self.tot["events"],
            runs_per_hour_one_seed_each=int(runs / secs * 3600),
            faults_injected=self.faults, rare_states_reached={k: v for k, v in self.probes.items() if v},
            rare_states_not_reached=sorted(k for k, v in self.probes.items() if not v),
            configurations=sorted({b[1] for b in self.batches}), builds=sorted({b[0] for b in self.batches}),
            components_real=["every header of /repo/include/boost/variant that the operations instantiate (unmodified working tree)",
                             "standard containers, streams, boost::mpl/hash/type_traits"],
            components_stub=["element types (tracers with scripted faults)", "operator new/delete (simulated heap)", "stream buffers", "visitors"],
            other_property_violations=["%s %s run %d: %s" % (o["cfg"], o["cls"], o["run"], o["msg"]) for o in self.others[:5]],
        )
        if hasattr(self, "extra"):
            cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  assumptions=ASSUME + self.spec.get("assume", []), wall_s=round(wall, 2),
                  violations=1 if vio else 0)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")


ASSUME = [
    "element destructors and swaps of pointers do not throw, and element types tell the truth in their noexcept specifications",
    "no operation is given a reference into the content of the variant it modifies (assigning a variant from a part of itself)",
    "exploration is seeded sampling within the listed configurations and plan lengths, not exhaustive",
]


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        with open(p) as fh:
            for l in fh:
                l = l.strip()
                if l.startswith("{"):
                    o = json.loads(l)
                    if o.get("property") == pid and o.get("status") == "open":
                        out.append(o)
    return out


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    r = Runner(pid, tier, seed)
    try:
        vio = r.run()
        r.evidence(vio)
    finally:
        shutil.rmtree(r.sigdir, ignore_errors=True)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for o in r.others[:3]:
        print("note: run of another property's invariant failed: %s %s: %s" % (o["cfg"], o["cls"], o["msg"]))
    print("%s %s: %d runs, %d operations (%d with a fault), %d distinct, %.0fs" % (
        pid, tier, r.tot["runs"], r.tot["ops"], r.tot["failed"], len(r.sigs), time.time() - r.t0))
    if vio:
        print("%s: %s" % (vio["cls"], vio["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, vio["path"]))
        return 1
    return 0


def replay(path):
    os.makedirs(BUILD, exist_ok=True)
    with open(path) as fh:
        text = fh.read()
    g = lambda k: (re.search(r"^%s (.*)$" % k, text, re.M) or [None, None])[1]
    kind, fl, groups = g("kind"), g("flavour"), int(g("groups"))
    if kind == "compile":
        exes, fails = build({fl: {g("unit")}}, groups)
        print("does not compile" if fails else "compiles")
        return 1 if fails else 0
    pid = g("prop_id")
    units = set()
    for tier in ("quick", "thorough"):
        for f, us, n in PROPS[pid].get(tier, []):
            units.update(us)
    exes, fails = build({fl: units}, groups)
    if fails:
        raise CheckError("does not compile: " + fails[0][3].err[-500:])
    if kind == "batch":
        rc, out, err = run_cmd([exes[fl]] + g("args").split(), 800)
        v = parse_v(out)
    else:
        body = "\n".join(l for l in text.splitlines() if re.match(r"(cfg|prop|seed|op) ", l)) + "\n"
        rc, v, out, err = exec_plan(exes[fl], body)
    if not v:
        print("no violation: " + out.strip()[-200:])
        return 0
    print("class=%s hash=%s %s" % (v["cls"], v["hash"], v["msg"]))
    exp = g("expect") or ""
    same = ("class=" + v["cls"]) in exp and (kind == "batch" or v["hash"] in exp)
    print("reproduced exactly" if same else "a different violation than recorded")
    return 1


def determinism(n):
    os.makedirs(BUILD, exist_ok=True)
    pid = "C01"
    spec = PROPS[pid]
    exes, fails = build({"g17": set(ALL)}, spec["groups"])
    if fails:
        raise CheckError("does not compile")
    cfgs = run_cmd([exes["g17"], "list"], 60)[1].split()
    bad = 0

    def hashes(c, a, k):
        out = run_cmd([exes["g17"], "hashes", "1", c, "7", str(a), str(k)], 600)[1]
        return [l for l in out.splitlines() if re.match(r"\d+ [0-9a-f]{16}$", l)]
    for c in cfgs:
        one = hashes(c, 0, n)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            k = (n + 7) // 8
            two = [x for part in ex.map(lambda i: hashes(c, i * k, min(k, n - i * k)), range(8)) for x in part]
        three = hashes(c, 0, n)
        ok = one == two == three and len(one) == n
        bad += not ok
        print("%s: %d runs, %s" % (c, n, "identical" if ok else "DIFFER"))
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "replay":
            sys.exit(replay(sys.argv[2]))
        if sys.argv[1] == "setup":
            os.makedirs(BUILD, exist_ok=True)
            for tool in ("g++", "clang++"):
                if not shutil.which(tool):
                    raise CheckError("missing " + tool)
            sys.exit(0)
        if sys.argv[1] == "determinism":
            sys.exit(determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 1000))
        sys.exit(check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
