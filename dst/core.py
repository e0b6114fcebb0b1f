"""Core of the simulation driver: build, run one world, seeded search, gate, minimise, evidence."""
import os, sys, json, hashlib, random, shutil, subprocess, tempfile, time, copy, multiprocessing, signal, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("ESIM_BUILD", os.path.join(VERIF, "build"))
NWORK = int(os.environ.get("ESIM_WORKERS", str(os.cpu_count() or 4)))

class CheckError(Exception):
    pass

def build(variant="fo"):
    d = os.path.join(BUILD, variant)
    r = subprocess.run(["bash", os.path.join(VERIF, "sim", "build.sh"), d, variant],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("instrumented build failed:\n" + r.stdout[-3000:])
    return os.path.join(d, "bin")

# ------------------------------------------------------------------ plans
DEFAULTS = dict(ncores=4, ticks_per_us=1.0, q_min=5000, q_max=50000, sched=0, sticky=80,
                rchunk=0, rchunk_pct=0, pchunk=0, pchunk_pct=0, schunk=0, schunk_pct=0,
                pipecap=65536, tty=0, gai=0, heap_limit=0, heap_base=0, heap_seed=0, heap_fill=-1, heap_freefill=-1,
                tick_budget=400000000, vtime_limit=10**12, epoch=1700000000, vpid0=1000,
                stop_when_roots=0, settle_us=1000000)
# capture=1 in a plan: record what every process wrote to a stdout pipe

def plan(roots, seed=1, files=None, faults=None, stub="", env=None, variant="fo", **params):
    """roots: list of dict(argv=[...], stdin=None|str, start=0).  faults: list of
    [sel, op, idx, cnt, act, arg, match].  files: relative path -> text."""
    for k in params:
        assert k in DEFAULTS, k
    return dict(roots=roots, seed=seed, files=files or {}, faults=faults or [], stub=stub,
                env=env or {}, params=params, choices=None, variant=variant)

def R(*argv, stdin=None, start=0):
    return dict(argv=list(argv), stdin=stdin, start=start)

class Result:
    """Outcome of one simulated world."""
    OUTCOMES = {0: "done", 1: "deadlock", 2: "tickbudget", 3: "vtimelimit", 4: "stopped"}
    def __init__(self, d, outs, errs, tree, log=None):
        self.d = d
        self.outs, self.errs, self.tree, self.log = outs, errs, tree, log
        self.outcome = self.OUTCOMES[d["outcome"]]
        self.procs = d["procs"]
        self.hash = d["loghash"]
    def out(self, k=0): return self.outs[k]
    def err(self, k=0): return self.errs[k]
    def root(self, k=0):
        for p in self.procs:
            if p["root"] == k + 1: return p
    def status(self, k=0):
        """('exit', code) | ('signal', n) | ('alive', state)"""
        p = self.root(k)
        if p["state"] in ("zombie", "gone"):
            w = p["wstatus"]
            return ("exit", w >> 8) if p["byexit"] else ("signal", w & 127)
        return ("alive", p["state"])

WALL = 60.0
_tmproot = None
def tmproot():
    global _tmproot
    if _tmproot is None:
        _tmproot = tempfile.mkdtemp(prefix="esim.")
    return _tmproot
_cnt = 0

def run(pl, keep_tree=True, want_log=False, setup=None, wall=None):
    """Execute one plan in a fresh scratch directory. Deterministic in pl and the code."""
    global _cnt
    _cnt += 1
    base = os.path.join(tmproot(), "w%d.%d" % (os.getpid(), _cnt))
    wd = os.path.join(base, "d")
    os.makedirs(os.path.join(wd, "tmp"))
    try:
        for rel, txt in pl["files"].items():
            f = os.path.join(wd, rel)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if txt is None:
                os.makedirs(f, exist_ok=True)
            else:
                with open(f, "wb") as h: h.write(txt.encode("latin-1"))
        if setup: setup(wd)
        L = ["seed %d" % (pl["seed"] & 0x7fffffffffffffff)]
        P = dict(DEFAULTS); P.update(pl["params"])
        for k, v in P.items(): L.append("%s %s" % (k, v))
        L.append("bindir " + os.path.join(BUILD, pl.get("variant", "fo"), "bin"))
        L.append("wall %g" % (wall or WALL))
        L.append("chdir " + wd)
        if pl["stub"]: L.append("stub " + pl["stub"])
        envd = dict(TMPDIR="tmp", PATH="/usr/bin:/bin", LC_ALL="C"); envd.update(pl["env"])
        for k, v in sorted(envd.items()): L.append("env %s=%s" % (k, v))
        for i, r in enumerate(pl["roots"]):
            si = "-"
            if r.get("stdin") is not None:
                si = os.path.join(base, "stdin.%d" % i)
                with open(si, "wb") as h: h.write(r["stdin"].encode("latin-1"))
            L.append("root %d %s %s" % (r.get("start", 0), si, "\x1f".join(r["argv"])))
        for f in pl["faults"]:
            f = list(f) + [""] * (7 - len(f))
            L.append("fault %d %s %d %d %s %d %s" % tuple(f))
        if pl.get("choices") is not None:
            L.append("choices " + (",".join(map(str, pl["choices"])) or "0"))
        if pl.get("capture"): L.append("capture " + os.path.join(base, "cap"))
        if want_log: L.append("log " + os.path.join(base, "log"))
        pf = os.path.join(base, "plan"); rf = os.path.join(base, "res")
        with open(pf, "w", encoding="latin-1") as h: h.write("\n".join(L) + "\n")
        exe = os.path.join(BUILD, pl.get("variant", "fo"), "bin", "esim_run")
        p = subprocess.run([exe, pf, rf], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise CheckError("esim_run failed (%d): %s" % (p.returncode, p.stdout.decode("latin-1")[-500:]))
        with open(rf, encoding="latin-1") as h: d = json.load(h)
        if d["walltimeout"]:
            raise CheckError("simulated world exceeded real wall-clock guard: %s" % (pl["roots"],))
        outs, errs = [], []
        for i in range(len(pl["roots"])):
            outs.append(open(rf + ".out.%d" % i, "rb").read().decode("latin-1"))
            errs.append(open(rf + ".err.%d" % i, "rb").read().decode("latin-1"))
        tree = {}
        if keep_tree:
            for dp, dn, fn in os.walk(wd):
                for f in fn:
                    full = os.path.join(dp, f)
                    tree[os.path.relpath(full, wd)] = open(full, "rb").read().decode("latin-1")
                for f in dn:
                    tree.setdefault(os.path.relpath(os.path.join(dp, f), wd) + "/", None)
        log = open(os.path.join(base, "log"), encoding="latin-1").read() if want_log else None
        res = Result(d, outs, errs, tree, log)
        if pl.get("capture"): res.pout = read_capture(os.path.join(base, "cap"))
        STATS.add(pl, res)
        return res
    finally:
        shutil.rmtree(base, ignore_errors=True)

def read_capture(path):
    b = open(path, "rb").read(); out = {}; i = 0
    while i < len(b):
        j = b.index(b"\n", i); v, n = map(int, b[i:j].split())
        out[v] = out.get(v, b"") + b[j + 1:j + 1 + n]; i = j + 1 + n
    return {v: t.decode("latin-1") for v, t in out.items()}

# ------------------------------------------------------------------ statistics
class Stats:
    def __init__(self):
        self.runs = 0; self.vus = 0; self.ticks = 0; self.switches = 0; self.fired = {}; self.ops = {}
        self.shorts = [0, 0, 0]; self.xcpu = 0; self.preempt = 0; self.hashes = set(); self.nontrivial = set(); self.maxcov = 0
        self.outcomes = {}; self.procs = 0; self.sched = set(); self.stalls = 0
    def add(self, pl, r):
        d = r.d
        self.runs += 1; self.vus += d["now"]; self.ticks += d["ticks"]; self.switches += d["nswitch"]
        for k, v in d["fired"].items(): self.fired[k] = self.fired.get(k, 0) + v
        for k, v in d["ops"].items(): self.ops[k] = self.ops.get(k, 0) + v
        for i in range(3): self.shorts[i] += d["short"][i]
        self.xcpu += d["xcpu"]; self.preempt += d["preempt"]; self.stalls += d["stalls"]
        self.maxcov = max(self.maxcov, d["cov"])
        self.procs += len(d["procs"])
        h = d["loghash"]
        self.hashes.add(h); self.sched.add(d["schash"])
        if d["fired"] or d["nchoice"] or any(d["short"]) or d["xcpu"] or pl["params"].get("heap_seed") or pl["params"].get("heap_base") or pl["params"].get("heap_limit"):
            self.nontrivial.add(h)
        self.outcomes[r.outcome] = self.outcomes.get(r.outcome, 0) + 1
    def merge(self, o):
        for k in ("runs", "vus", "ticks", "switches", "xcpu", "preempt", "procs", "stalls"): setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in ("fired", "ops", "outcomes"):
            a = getattr(self, k)
            for x, v in getattr(o, k).items(): a[x] = a.get(x, 0) + v
        self.shorts = [a + b for a, b in zip(self.shorts, o.shorts)]
        self.maxcov = max(self.maxcov, o.maxcov)
        self.hashes |= o.hashes; self.nontrivial |= o.nontrivial; self.sched |= o.sched
STATS = Stats()

# ------------------------------------------------------------------ search
class Check:
    """Subclass per property.  gen(rng, i) -> case; judge(case, results) -> [(class, message)]."""
    id = None
    variants = ("fo",)
    quick_cases = 400
    thorough_cases = 8000
    quick_wall = 60
    thorough_wall = 780
    real = ["all E code of the programs run"]
    stubbed = ["libc process, time, signal, memory and I/O entry points (simulated)"]
    probes = ()
    level = "exploration"
    assumptions = []
    rule = ""
    def setup(self): pass
    def gen(self, rng, i): raise NotImplementedError
    def judge(self, case, results): raise NotImplementedError
    def run_case(self, case):
        return [run(p) for p in case["plans"]]
    def shrink(self, case):
        """yield simpler candidate cases (property specific)"""
        return ()
    def probe(self, case, results): return ()
    def key(self, v): return v[0]

def case_seed(vseed, prop, i):
    h = hashlib.sha256(("%d/%s/%d" % (vseed, prop, i)).encode()).digest()
    return int.from_bytes(h[:7], "big")

_check = None
def _winit(tr):
    global _tmproot, STATS
    _tmproot = tr
    signal.signal(signal.SIGINT, signal.SIG_IGN)
def _wtask(a):
    global STATS
    vseed, i = a
    STATS = Stats()
    try:
        rng = random.Random(case_seed(vseed, _check.id, i))
        case = _check.gen(rng, i)
        if case is None: return (i, None, [], STATS, (), None)
        res = _check.run_case(case)
        v = _check.judge(case, res)
        pr = list(_check.probe(case, res))
        return (i, case if (v or i < 3) else None, v, STATS, pr, [r.hash for r in res])
    except CheckError as e:
        return (i, None, [("ERROR", str(e))], STATS, (), None)
    except Exception as e:
        return (i, None, [("ERROR", traceback.format_exc())], STATS, (), None)

def reproduces(check, case, vclass):
    res = check.run_case(case)
    vs = check.judge(case, res)
    for v in vs:
        if v[0] == vclass: return v, [r.hash for r in res]
    return None, [r.hash for r in res]

def minimise(check, case, vclass, budget=160, wall=120):
    t0 = time.time(); n = [0]
    def ok(c):
        if n[0] >= budget or time.time() - t0 > wall: return False
        n[0] += 1
        try:
            return reproduces(check, c, vclass)[0] is not None
        except CheckError:
            return False
    best = copy.deepcopy(case)
    for pi in range(len(best["plans"])):
        # faults (delta debugging by halves, then singly)
        fl = best["plans"][pi]["faults"]; size = max(1, len(fl) // 2)
        while fl and size >= 1:
            i = 0; changed = False
            while i < len(fl):
                c = copy.deepcopy(best); del c["plans"][pi]["faults"][i:i + size]
                if ok(c): best = c; fl = best["plans"][pi]["faults"]; changed = True
                else: i += size
            if size == 1 and not changed: break
            size = max(1, size // 2) if size > 1 else (1 if changed else 0)
        # persistent faults to single ones
        for i, f in enumerate(list(best["plans"][pi]["faults"])):
            if f[3] != 1 and f[1] not in ("tick", "time"):
                c = copy.deepcopy(best); c["plans"][pi]["faults"][i][3] = 1
                if ok(c): best = c
        # perturbation modes
        for k in ("rchunk", "pchunk", "schunk", "heap_seed", "heap_base", "heap_fill", "heap_freefill", "heap_limit", "pipecap", "sched"):
            if k in best["plans"][pi]["params"]:
                c = copy.deepcopy(best); del c["plans"][pi]["params"][k]
                if ok(c): best = c
    for k in range(40):
        done = True
        for c in check.shrink(best):
            if ok(c): best = c; done = False; break
        if done: break
    # schedule: explicit decisions, shortest prefix, then zeroed blocks
    for pi in range(len(best["plans"])):
        pl = best["plans"][pi]
        if pl.get("choices") is not None: continue
        try: res = check.run_case(best)
        except CheckError: break
        ch = [int(x) for x in res[pi].d["choices"].split(",") if x] if pi < len(res) else []
        if not ch: continue
        c = copy.deepcopy(best); c["plans"][pi]["choices"] = []
        if ok(c): best = c; continue
        c = copy.deepcopy(best); c["plans"][pi]["choices"] = ch
        if not ok(c): continue
        best = c; lo, hi = 0, len(ch)
        while lo < hi and hi - lo > max(1, len(ch) // 200):
            mid = (lo + hi) // 2
            c = copy.deepcopy(best); c["plans"][pi]["choices"] = ch[:mid]
            if ok(c): best = c; hi = mid
            else: lo = mid + 1
        cur = best["plans"][pi]["choices"]; size = max(1, len(cur) // 4)
        while size >= 1 and n[0] < budget:
            for i in range(0, len(cur), size):
                if any(cur[i:i + size]):
                    c = copy.deepcopy(best); x = c["plans"][pi]["choices"]; x[i:i + size] = [0] * len(x[i:i + size])
                    if ok(c): best = c; cur = x
            if size == 1: break
            size //= 2
        while best["plans"][pi]["choices"] and best["plans"][pi]["choices"][-1] == 0: best["plans"][pi]["choices"].pop()
    return best, n[0]

def load_known():
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)) if k.get("status") == "open"]

def replay(check, path):
    d = json.load(open(path))
    v, h = reproduces(check, d["case"], d["violation"][0])
    return v, h, d

def write_evidence(check, tier, vseed, stats, ncases, wall, nviol, samples, probes, extra=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    fired = dict(stats.fired)
    if stats.shorts[0]: fired["short file read"] = stats.shorts[0]
    if stats.shorts[1]: fired["short pipe read"] = stats.shorts[1]
    if stats.shorts[2]: fired["short socket transfer"] = stats.shorts[2]
    if stats.xcpu: fired["CPU limit signal"] = stats.xcpu
    ev = dict(property=check.id, tier=tier, seed=vseed, level=check.level,
        coverage=dict(
            evaluations=ncases, distinct_nontrivial=len(stats.nontrivial),
            rule=check.rule + " A simulated run counts as non-trivial if at least one fault fired, one scheduling decision was taken, one transfer was cut short, a CPU limit struck or the memory layout was perturbed; distinct = different hash of the complete event log.",
            samples=samples,
            simulated_runs=stats.runs, runs_per_hour=int(stats.runs / max(wall, 0.001) * 3600),
            cases_per_hour=int(ncases / max(wall, 0.001) * 3600),
            simulated_seconds=round(stats.vus / 1e6, 3), simulated_basic_blocks=stats.ticks,
            simulated_processes=stats.procs,
            faults_injected=fired, context_switches=stats.switches, preemptions=stats.preempt,
            distinct_event_histories=len(stats.hashes), distinct_schedules=len(stats.sched),
            operations=stats.ops, world_outcomes=stats.outcomes, max_code_blocks_hit=stats.maxcov,
            probes=probes, components_real=check.real, components_stubbed=check.stubbed,
            **(extra or {})),
        assumptions=list(check.assumptions), wall_s=round(wall, 2), violations=nviol)
    with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as h: json.dump(ev, h, indent=1)

def main(check, argv):
    """Returns the exit code."""
    global _check
    tier = os.environ.get("VERIF_TIER", "quick")
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    for v in check.variants: build(v)
    tb = time.time() - t0
    tmproot()
    try:
        if "--replay" in argv:
            check.setup()
            path = argv[argv.index("--replay") + 1]
            v, h, d = replay(check, path)
            print("replay %s: %s" % (path, "reproduced: %s" % (v,) if v else "NOT reproduced"))
            if v and h != d.get("hashes"):
                print("note: event-log hash differs from the recorded one (code changed?)")
            return 1 if v else 0
        _check = check
        check.setup()
        n = check.thorough_cases if tier == "thorough" else check.quick_cases
        if "--cases" in argv: n = int(argv[argv.index("--cases") + 1])
        wallcap = check.thorough_wall if tier == "thorough" else check.quick_wall
        if "--wall" in argv: wallcap = float(argv[argv.index("--wall") + 1])
        known = [k for k in load_known() if k["property"] == check.id]
        knownkeys = {k["key"] for k in known}
        t1 = time.time()
        stats = Stats(); viol = []; samples = []; probes = {p: 0 for p in check.probes}; done = 0; errors = []
        ctx = multiprocessing.get_context("fork")
        stop = False
        with ctx.Pool(NWORK, initializer=_winit, initargs=(tmproot(),)) as pool:
            it = pool.imap_unordered(_wtask, ((vseed, i) for i in range(n)), chunksize=1)
            for (i, case, v, st, pr, hs) in it:
                done += 1
                stats.merge(st)
                for p in pr: probes[p] = probes.get(p, 0) + 1
                if v and v[0][0] == "ERROR":
                    errors.append((i, v[0][1]))
                    if len(errors) >= 3: stop = True
                elif v:
                    for x in v: viol.append((i, x, case, hs))
                fresh = [x for x in viol if check.key(x[1]) not in knownkeys]
                if case is not None and i < 3: samples.append(dict(i=i, case=summarise(case)))
                if time.time() - t1 > wallcap or stop or len(fresh) >= 12 or len(set(check.key(x[1]) for x in fresh)) >= 4:
                    pool.terminate(); break
        samples.sort(key=lambda s: s["i"])
        wall = time.time() - t1
        for i, e in errors[:2]: print("  note: case %d gave no answer: %s" % (i, e[-600:]))
        if len(errors) >= 3 and not viol:
            print("ERROR property=%s case=%d: %s" % (check.id, errors[0][0], errors[0][1][-2000:]))
            return 2
        new = {}
        hit = {}
        for (i, v, case, hs) in sorted(viol, key=lambda x: x[0]):
            k = check.key(v)
            kn = next((q for q in known if q["key"] == k), None)
            if kn: hit.setdefault(k, []).append(i)
            else: new.setdefault(k, []).append((i, v, case, hs))
        for k in known:   # the finding is listed whether or not this batch ran into it
            print("KNOWN-FINDING: property=%s %s" % (check.id, k["what"]))
        extra = dict(known_findings_hit={k: len(x) for k, x in hit.items()}, build_s=round(tb, 1), workers=NWORK)
        rc = 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        unstable = []
        for k, cands in sorted(new.items(), key=lambda kv: kv[1][0][0])[:2]:
            # gate: the same case again, twice: same violation and identical event logs.  A changed tree can behave
            # differently from run to run for reasons of its own (it reads uninitialised or freed memory, say); a case
            # whose violation comes back every time is then still reported, with a note, but not minimised.
            chosen = None
            for (i, v, case, hs) in cands[:4]:
                v2, h2 = reproduces(check, case, v[0])
                v3, h3 = reproduces(check, case, v[0])
                if not v2 or not v3:
                    unstable.append((i, hs, h2, h3)); continue
                exact = h2 == h3 and (hs is None or h2 == hs)
                if chosen is None or exact: chosen = (i, v, case, v2, h2, exact)
                if exact: break
            if chosen is None: continue
            i, v, case, v2, h2, exact = chosen
            tries = 0; mini, vm, hm = case, v2, h2
            if exact:
                mini, tries = minimise(check, case, v[0])
                vm, hm = reproduces(check, mini, v[0])
                if not vm: mini, vm, hm = case, v2, h2
            def put(mini, vm, hm):
                path = os.path.join(VERIF, "replays", "%s-%s.json" % (check.id, hashlib.sha256(json.dumps(mini, sort_keys=True).encode()).hexdigest()[:12]))
                with open(path, "w") as h:
                    json.dump(dict(property=check.id, violation=list(vm), hashes=hm, found_at=dict(VERIF_SEED=vseed, case=i), minimisation_runs=tries, case=mini), h, indent=1)
                r = subprocess.run([sys.executable, os.path.join(VERIF, "check"), check.id, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                return path, r.returncode == 1, "hash differs" not in r.stdout
            path, rep, same = put(mini, vm, hm)
            if not rep and mini is not case:
                path, rep, same = put(case, v2, h2); vm = v2
            if not rep:
                unstable.append((i, hs, h2, "fresh process")); continue
            if not (exact and same):
                print("  note: the violation reproduces every time, but the event logs of the runs differ")
            print("  seed=%d case=%d class=%s" % (vseed, i, k))
            print("  " + str(vm[1])[:1500])
            print("VIOLATION property=%s replay=%s" % (check.id, path))
            rc = 1
        if rc == 0 and unstable:
            print("ERROR property=%s: violations that do not replay: %s" % (check.id, unstable[:4]))
            rc = 2
        write_evidence(check, tier, vseed, stats, done, wall, len(new), samples, probes, extra)
        print("%s %s: %d cases, %d simulated runs (%d distinct non-trivial), %.1f s + build %.1f s, %d violation classes, faults %s" % (
            check.id, tier, done, stats.runs, len(stats.nontrivial), wall, tb, len(new), stats.fired))
        if probes: print("  probes: %s" % probes)
        return rc
    finally:
        shutil.rmtree(tmproot(), ignore_errors=True)

def summarise(case):
    c = copy.deepcopy(case)
    for p in c["plans"]:
        for k in list(p["files"]):
            t = p["files"][k]
            if t and len(t) > 600: p["files"][k] = t[:600] + "..."
        for r in p["roots"]:
            if r.get("stdin") and len(r["stdin"]) > 600: r["stdin"] = r["stdin"][:600] + "..."
        if p.get("choices") and len(p["choices"]) > 200: p["choices"] = p["choices"][:200]
    return c
