"""run loop, references, fault/schedule placement, minimisation, replay, evidence"""
import sys, os, json, random, time, select, pickle, signal, copy, zlib, traceback, importlib, warnings

import sim as simmod
from sim import Sim, SimStdout, applicable
from canon import canon, same, same_outcome, brief, outcome_str
from forkrun import forked, HarnessError
import env as envmod

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
CHILD_TIMEOUT = 300


class World:
    """per-run live objects; subclass implements do(task, op)"""

    def __init__(self, scen, sim_ref):
        self.scen = scen
        self.s = sim_ref          # list with the Sim inside
        self.notes = []           # violations noticed while the run proceeds: (key, msg)
        self.probes = {}
        self.setup(scen.get("setup", {}))

    def setup(self, cfg):
        pass

    @property
    def sim(self):
        return self.s[0]

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note(self, key, msg):
        self.notes.append((key, msg))

    def observe(self, task, op, r):
        pass

    def final(self):
        return None


class Prop:
    id = None
    preload = ()
    budget = 2000000
    fault_kinds = ("kint", "mem", "nocv", "linalg", "epipe", "enospc")
    World = World
    runs = {"quick": 1500, "thorough": 60000}
    real = "aerokit (all code reached by the operations), numpy, scipy"
    stub = "caller tasks, stdout device, user callbacks, fault injector, scheduler"
    modes = (("fault", 4), ("switch", 3), ("both", 3))
    max_faults = 2
    max_switches = 6
    snapshot_globals = True
    variants = 1                  # executions of each scenario, with different fault points and switches
    used = set()
    directed = ()                 # scenarios always run first (findings, corner cases)

    def gen(self, rng):
        raise NotImplementedError

    def judge(self, scen, rec, ctx):
        """-> [(key, msg)]"""
        return []

    def fault_ok(self, scen, op, label, kind):
        return True

    # ---- placement
    def place(self, rng, scen, prof):
        scen = dict(scen)
        ntask = len(scen["tasks"])
        modes = [m for m, w in self.modes for _ in range(w) if ntask > 1 or m == "fault"]
        mode = rng.choice(modes or ["fault"])
        ids = {o["id"]: (ti, o) for ti, t in enumerate(scen["tasks"]) for o in t}
        live = [i for i in prof if prof[i]]
        faults, switches = {}, {}
        if mode in ("fault", "both") and live:
            kinds = list(self.fault_kinds)
            if rng.random() < .5:      # swarm: a random subset of fault kinds
                kinds = rng.sample(kinds, rng.randint(1, len(kinds)))
            for _ in range(rng.randint(1, self.max_faults)):
                o = rng.choice(live)
                p = self.pick_fault(rng, scen, ids[o][1], prof[o], kinds)
                if p:
                    faults[(o, p[0])] = p[1]
        if mode in ("switch", "both") and ntask > 1 and ids:
            k = rng.randint(1, self.max_switches)
            for _ in range(k):
                o = rng.choice(list(ids))
                others = [x for x in range(ntask) if x != ids[o][0]]
                n = 0
                if prof.get(o) and rng.random() < .8:
                    n = self.pick_point(rng, prof[o])
                switches[(o, n)] = rng.choice(others)
            # bias: fault right after coming back from a switch
            if faults and rng.random() < .4:
                (o, n), kd = next(iter(faults.items()))
                if n > 1:
                    switches[(o, n - 1)] = rng.choice([x for x in range(ntask) if x != ids[o][0]])
        prio = list(range(ntask))
        rng.shuffle(prio)
        scen["prio"] = prio
        scen["faults"] = [[o, n, k] for (o, n), k in faults.items()]
        scen["switches"] = [[o, n, t] for (o, n), t in switches.items()]
        return scen

    def pick_point(self, rng, labels):
        loc = {}
        for i, l in enumerate(labels):
            loc.setdefault(l, []).append(i + 1)
        return rng.choice(loc[rng.choice(list(loc))])

    def pick_fault(self, rng, scen, op, labels, kinds):
        loc = {}
        for i, l in enumerate(labels):
            loc.setdefault(l, []).append(i + 1)
        names = list(loc)
        for _ in range(8):
            k = rng.choice(kinds)
            cand = [l for l in names if applicable(k, l) and self.fault_ok(scen, op, l, k)]
            name = op["op"][0] if isinstance(op["op"], list) else ""
            cand = [l for l in cand if (name, l) not in self.used] or cand
            if cand:
                l = rng.choice(cand)
                self.used.add((name, l))
                return rng.choice(loc[l]), k
        return None


# ------------------------------------------------------------------ one simulated run (inside a forked child)
def _child(prop, scen, profile):
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="warn")
    out = SimStdout()
    sys.stdout = out
    random.seed(12345)
    np.random.seed(12345)
    ref = [None]
    try:
        world = prop.World(scen, ref)
    except Exception as e:
        if not in_library(e):
            raise
        return {"out": {}, "order": [], "fired": [], "steps": 0, "hash": 0, "nswitch": 0, "profile": {}, "probes": {}, "final": None, "globals": [],
                "trace": [], "unfinished": [], "notes": [("setup", "the library fails while the objects of this run are made, one after the other, in a fresh process: %s(%s)" %
                                                          (type(e).__name__, str(e)[:160]))]}
    faults = {(o, n): k for o, n, k in scen.get("faults", [])} if not profile else {}
    switches = {(o, n): t for o, n, t in scen.get("switches", [])} if not profile else {}
    s = Sim(world.do, scen["tasks"], switches, faults, scen.get("prio"), scen.get("budget", prop.budget), profile, world.observe,
            envmod.local if prop.snapshot_globals else None)
    ref[0] = s
    world.out = out
    before = envmod.snapshot(**getattr(world, "snap_opts", {})) if prop.snapshot_globals else {}
    s.run()
    after = envmod.snapshot(**getattr(world, "snap_opts", {})) if prop.snapshot_globals else {}
    gd = [(k, str(before[k])[:120], str(after[k])[:120]) for k in envmod.diff(before, after)] + s.localdiff
    try:
        fin = canon(world.final())
    except Exception as e:
        if not in_library(e):
            raise
        fin = None
        world.note("final", "the library fails when the objects are looked at after the run: %s(%s)" % (type(e).__name__, str(e)[:160]))
    return {"out": s.out, "order": s.order, "fired": s.fired, "steps": s.steps, "hash": s.h, "nswitch": s.nswitch,
            "profile": s.profile, "notes": world.notes, "probes": world.probes, "final": fin, "globals": gd,
            "trace": s.trace, "unfinished": [t.i for t in s.tasks if not t.done]}


def in_library(e):
    tb, hit = e.__traceback__, False
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        hit = hit or f.startswith(simmod.PKG) or f == simmod.EXTRA
        tb = tb.tb_next
    return hit


def run_scen(prop, scen, profile=False):
    return forked(_child, prop, scen, profile, timeout=CHILD_TIMEOUT)


class Ctx:
    """pristine references: each computed in its own fork of the unexercised process"""

    def __init__(self):
        self.memo = {}
        self.nref = 0

    def ref(self, key, fn, *args):
        k = key if isinstance(key, str) else json.dumps(key, sort_keys=True)
        v = self.memo.get(k)
        if v is None:
            self.nref += 1
            v = forked(_refchild, fn, args, timeout=CHILD_TIMEOUT)
            if len(self.memo) > 20000:
                self.memo.clear()
            self.memo[k] = v
        return v


def _refchild(fn, args):
    warnings.simplefilter("ignore")
    sys.stdout = SimStdout()
    random.seed(12345)
    import numpy as np
    np.random.seed(12345)
    try:
        return ("ok", canon(fn(*args)))
    except Exception as e:
        return ("exc", (type(e).__name__, str(e)[:200], True))


def sanity(scen, rec):
    """verdicts every property shares: no hang, no deadlock"""
    v = []
    for o, r in rec["out"].items():
        if r[0] == "exc" and r[1][0] == "StepBudget":
            v.append(("hang", "operation %s exceeded its step budget (%d points)" % (o, r[2])))
        if r[0] == "exc" and r[1][0] == "Deadlock":
            v.append(("deadlock", "operation %s deadlocked" % o))
    if rec["unfinished"]:
        v.append(("deadlock", "tasks %s never finished" % rec["unfinished"]))
    return v


def judge(prop, scen, rec, ctx):
    v = [tuple(x) for x in rec["notes"]] + sanity(scen, rec)
    if not any(k in ("setup", "final") for k, _ in v):
        v += prop.judge(scen, rec, ctx)
    seen, out = set(), []
    for k, m in v:
        if k not in seen:
            seen.add(k)
            out.append((k, m))
    return out


# ------------------------------------------------------------------ known findings
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def known_keys(pid):
    return {f["key"]: f for f in load_known() if f["property"] == pid and f.get("status", "open") == "open"}


# ------------------------------------------------------------------ worker
def one_run(prop, seed, i, ctx, stats, known=()):
    rng = random.Random("%d/%s/%d" % (seed, prop.id, i))
    nd = len(prop.directed)
    directed = i < nd
    scen = copy.deepcopy(prop.directed[i]) if directed else prop.gen(rng)
    scen["run"] = i
    res = []
    if not (directed and "faults" in scen):
        dry = run_scen(prop, dict(scen, faults=[], switches=[]), profile=True)
        stats.add(prop, scen, dry, dry=True)
        v = judge(prop, dict(scen, faults=[], switches=[]), dry, ctx)
        if v:
            res.append((dict(scen, faults=[], switches=[]), dry, v))
            if any(k not in known for k, _ in v):
                return res
        base, prof = scen, dry["profile"]
    else:
        base, prof = scen, None
    prop.used = set()
    for j in range(prop.variants if prof is not None else 1):
        scen = base if prof is None else prop.place(rng, base, prof)
        if scen.get("faults") or scen.get("switches") or (directed and j == 0):
            rec = run_scen(prop, scen)
            stats.add(prop, scen, rec)
            v = judge(prop, scen, rec, ctx)
            if v:
                res.append((scen, rec, v))
                if any(k not in known for k, _ in v):
                    return res
    return res


class Stats:
    def __init__(self):
        self.runs = self.dry = self.steps = self.ops = self.switches = 0
        self.fired, self.sigs, self.probes = {}, set(), {}
        self.fault_locs, self.sched = set(), set()
        self.samples = []
        self.configured = 0
        self.exc = {}

    def add(self, prop, scen, rec, dry=False):
        if dry:
            self.dry += 1
        else:
            self.runs += 1
        self.steps += rec["steps"]
        self.ops += len(rec["out"])
        self.switches += rec["nswitch"]
        for k, n in rec["probes"].items():
            self.probes[k] = self.probes.get(k, 0) + n
        for o, n, k, lab in rec["fired"]:
            self.fired[k] = self.fired.get(k, 0) + 1
            self.fault_locs.add(zlib.crc32((k + lab).encode()))
        self.configured += len(scen.get("faults", []))
        sw = [t for t in rec["trace"] if t.startswith("SWITCH")]
        if sw:
            self.sched.add(zlib.crc32("\n".join(sw).encode()))
        if rec["fired"] or rec["nswitch"] or prop.trivial_ok(scen, rec):
            self.sigs.add(rec["hash"])
            if len(self.samples) < 2:
                self.samples.append({"tasks": scen["tasks"], "setup": scen.get("setup"), "faults": scen.get("faults"),
                                     "switches": scen.get("switches"), "trace": rec["trace"][:14]})

    def merge(self, o):
        for k in ("runs", "dry", "steps", "ops", "switches", "configured"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in ("fired", "probes"):
            d = getattr(self, k)
            for a, b in getattr(o, k).items():
                d[a] = d.get(a, 0) + b
        for k in ("sigs", "fault_locs", "sched"):
            getattr(self, k).update(getattr(o, k))
        self.samples += o.samples


Prop.trivial_ok = lambda self, scen, rec: False


def worker(prop, seed, w, W, n, deadline, known):
    ctx, st = Ctx(), Stats()
    found, seen_known = [], {}
    done = 0
    for i in range(w, n, W):
        if time.monotonic() > deadline:
            break
        for scen, rec, v in one_run(prop, seed, i, ctx, st, known):
            new = []
            for k, m in v:
                if k in known:
                    seen_known[k] = seen_known.get(k, 0) + 1
                else:
                    new.append((k, m))
            if new:
                found.append((i, scen, rec, new))
        done += 1
        if found:
            break
    return {"stats": st, "found": found, "known": seen_known, "done": done, "nref": ctx.nref}


def parallel(jobs, timeout):
    """fork one process per job; -> results"""
    kids = []
    for fn, args in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    res = ("ok", fn(*args))
                except BaseException:
                    res = ("err", traceback.format_exc())
                with os.fdopen(w, "wb") as f:
                    pickle.dump(res, f, protocol=5)
            finally:
                os._exit(0)
        os.close(w)
        kids.append([pid, r, []])
    open_ = {k[1]: k for k in kids}
    end = time.monotonic() + timeout
    while open_:
        left = end - time.monotonic()
        if left <= 0:
            for k in kids:
                try:
                    os.kill(k[0], signal.SIGKILL)
                except ProcessLookupError:
                    pass
            raise HarnessError("workers exceeded %ss" % timeout)
        rl, _, _ = select.select(list(open_), [], [], left)
        for fd in rl:
            b = os.read(fd, 1 << 20)
            if b:
                open_[fd][2].append(b)
            else:
                os.close(fd)
                del open_[fd]
    out = []
    for pid, _, buf in kids:
        os.waitpid(pid, 0)
        if not buf:
            raise HarnessError("worker died without a result")
        tag, val = pickle.loads(b"".join(buf))
        if tag == "err":
            raise HarnessError(val)
        out.append(val)
    return out


# ------------------------------------------------------------------ minimisation
def minimise(prop, scen, key, limit=150, wall=60):
    ctx = Ctx()
    end = time.monotonic() + wall
    tries = [0]

    def fails(c):
        if tries[0] >= limit or time.monotonic() > end:
            return None
        tries[0] += 1
        try:
            rec = run_scen(prop, c)
            return rec if any(k == key for k, _ in judge(prop, c, rec, ctx)) else None
        except HarnessError:
            return None

    best, changed = scen, True
    while changed and tries[0] < limit and time.monotonic() < end:
        changed = False
        for c in candidates(prop, best):
            if fails(c) is not None:
                best, changed = c, True
                break
    return best, tries[0]


def candidates(prop, sc):
    for i in range(len(sc.get("faults", []))):
        yield dict(sc, faults=sc["faults"][:i] + sc["faults"][i + 1:])
    for i in range(len(sc.get("switches", []))):
        yield dict(sc, switches=sc["switches"][:i] + sc["switches"][i + 1:])
    for ti, t in enumerate(sc["tasks"]):
        if t and len(sc["tasks"]) > 1:
            tt = [list(x) for x in sc["tasks"]]
            tt[ti] = []
            yield dict(sc, tasks=tt)
    for ti, t in enumerate(sc["tasks"]):
        for oi in range(len(t) - 1, -1, -1):
            tt = [list(x) for x in sc["tasks"]]
            del tt[ti][oi]
            if any(tt):
                yield dict(sc, tasks=tt)
    yield from prop.shrink(sc)


Prop.shrink = lambda self, sc: ()


# ------------------------------------------------------------------ top level
def write_replay(prop, seed, i, scen, rec, key, msg, extra):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-seed%d-run%d.json" % (prop.id, seed, i))
    with open(p, "w") as f:
        json.dump({"property": prop.id, "seed": seed, "run": i, "violation": {"key": key, "message": msg},
                   "scenario": scen, "log_hash": rec["hash"], "trace": rec["trace"],
                   "outcomes": {o: outcome_str(r) for o, r in rec["out"].items()}, **extra}, f, indent=1)
    return p


def preload(prop):
    import numpy, scipy.optimize, scipy.linalg  # noqa
    keep, sys.stdout = sys.stdout, SimStdout()     # some modules print when imported
    try:
        _preload(prop)
    finally:
        sys.stdout = keep
    simmod.install()


def _preload(prop):
    for m in prop.preload:
        try:
            importlib.import_module(m)
        except ImportError:
            if not m.startswith("aerokit."):
                raise
            continue              # the operations that need it fail, and so do their references
        f = getattr(sys.modules[m], "__file__", "") or ""
        if m.startswith("aerokit") and not f.startswith(simmod.PKG):
            raise HarnessError("%s loaded from %s, not from %s" % (m, f, simmod.PKG))


def check(prop, tier, seed, nruns=None, workers=None, wall=None):
    t0 = time.monotonic()
    preload(prop)
    W = workers or min(8, os.cpu_count() or 1)
    n = nruns or max(prop.runs[tier], len(prop.directed))
    wall = wall or (420 if tier == "quick" else 3000)
    known = known_keys(prop.id)
    res = parallel([(worker, (prop, seed, w, W, n, t0 + wall, known)) for w in range(W)], wall + 400)
    st, found, done, nref, kn = Stats(), [], 0, 0, {}
    for r in res:
        st.merge(r["stats"])
        found += r["found"]
        done += r["done"]
        nref += r["nref"]
        for k, c in r["known"].items():
            kn[k] = kn.get(k, 0) + c
    rc = 0
    for k, f in known.items():
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (prop.id, f["what"], kn.get(k, 0)))
    if found:
        found.sort(key=lambda x: x[0])
        i, scen, rec, v = found[0]
        key, msg = v[0]
        small, tries = minimise(prop, scen, key)
        rec2 = run_scen(prop, small)
        vv = [m for k, m in judge(prop, small, rec2, Ctx()) if k == key]
        rec3 = run_scen(prop, small)
        path = write_replay(prop, seed, i, small, rec2, key, vv[0] if vv else msg,
                            {"minimise_tries": tries, "reproduced": bool(vv), "replay_hash_stable": rec3["hash"] == rec2["hash"],
                             "original_ops": sum(map(len, scen["tasks"])), "minimised_ops": sum(map(len, small["tasks"]))})
        print("violation of %s in run %d (seed %d): [%s] %s" % (prop.id, i, seed, key, vv[0] if vv else msg))
        for l in rec2["trace"]:
            print("   ", l)
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        rc = 1
    elif done < max(1, n // 4):
        raise HarnessError("only %d of %d runs finished within the wall-clock guard" % (done, n))
    w = time.monotonic() - t0
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st.runs + st.dry,
            "distinct_nontrivial": len(st.sigs),
            "rule": "one evaluation = one simulated run (scenario drawn from PRNG(seed/property/run index), fault-free profiling run, then the same "
                    "scenario with faults/switches placed uniformly over the distinct code locations it reached); non-trivial = at least one fault "
                    "fired or one task switch happened" + prop.rule_extra + "; distinct by rolling hash of every point passed and every decision",
            "samples": st.samples[:3],
            "faulted_or_scheduled_runs": st.runs, "fault_free_runs": st.dry, "pristine_reference_runs": nref,
            "simulated_runs_per_hour": int((st.runs + st.dry) / w * 3600), "seeds_per_hour": int(done / w * 3600),
            "seeds": done, "planned": n, "operations": st.ops,
            "simulated_time_points": st.steps,
            "simulated_time_note": "the code reads no clock; simulated time is counted in scheduling points (function entries, loop back-edges, calls, returns, writes, callbacks)",
            "faults_fired": st.fired, "faults_configured": st.configured,
            "distinct_fault_kind_x_code_location": len(st.fault_locs),
            "task_switches": st.switches, "distinct_switch_sequences": len(st.sched),
            "probes": st.probes, "known_findings_seen": kn,
            "real_components": prop.real, "stub_components": prop.stub,
        },
        "assumptions": ["CPython 3.12 delivers interrupts and switches threads only at the points the simulator controls",
                        "numpy, scipy and the interpreter behave as documented"] + list(prop.assumptions),
        "wall_s": round(w, 2), "violations": 1 if found else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if rc == 0:
        print("%s: held on %d runs (%d with faults/switches, %d distinct), %d faults fired %s, %d switches, %.1fs" %
              (prop.id, st.runs + st.dry, st.runs, len(st.sigs), sum(st.fired.values()), st.fired, st.switches, w))
    return rc


Prop.rule_extra = ""
Prop.assumptions = ()


def replay(prop, path):
    preload(prop)
    with open(path) as f:
        d = json.load(f)
    rec = run_scen(prop, d["scenario"])
    v = judge(prop, d["scenario"], rec, Ctx())
    for l in rec["trace"]:
        print("   ", l)
    print("log hash %d, recorded %d: %s" % (rec["hash"], d["log_hash"], "identical" if rec["hash"] == d["log_hash"] else "DIFFERENT"))
    for o, r in rec["out"].items():
        print("    %s %s" % (o, outcome_str(r)))
    for k, m in v:
        print("[%s] %s" % (k, m))
    if any(k == d["violation"]["key"] for k, _ in v):
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
        return 1
    print("not reproduced" if not v else "another violation than the recorded one")
    return 1 if v else 0


def hash_worker(prop, seed, w, W, n):
    out = {}
    for i in range(w, n, W):
        ctx = Ctx()
        st = Stats()
        hs = []
        orig = st.add
        st.add = lambda p, s, r, dry=False: (hs.append((r["hash"], r["steps"], zlib.crc32(repr(r["trace"]).encode()),
                                                        zlib.crc32(repr([(o, outcome_str(x)) for o, x in sorted(r["out"].items())]).encode()))), orig(p, s, r, dry))
        v = one_run(prop, seed, i, ctx, st)
        out[i] = (hs, [k for _, _, vv in v for k, _ in vv])
    return out


def hashes(prop, seed, n, workers=None):
    """print one line per run: for diffing logs across processes, worker counts and PYTHONHASHSEEDs"""
    preload(prop)
    W = workers or 8
    res = {}
    for r in parallel([(hash_worker, (prop, seed, w, W, n)) for w in range(W)], 3000):
        res.update(r)
    for i in sorted(res):
        print(i, res[i])
    return 0
