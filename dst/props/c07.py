"""C07 Riemann and inflow solutions are snapshots, solved all or nothing"""
import copy
import numpy as np
from engine import *
from lin import linearizable

GAM = [1.4, 1.3, 1.2, 1.67]
STATES = [[1.0, 0.0, 1.0], [0.125, 0.0, 0.1], [0.5, 0.3, 0.8], [1.0, -1.0, 0.4], [1.0, 1.0, 0.4], [1.4, 0.2, 1.0], [1.0, -1.0, 1.0]]
INIT = [[1.0, 0.2, 1.0], [1.0, 0.5, 1.0], [1.4, 0.1, 1.0]]
REQ = [[1.3, 1.1], [1.1, 1.2], [2.0, 1.0], [1.2, 1.1], [1.5, 1.3], [float("nan"), 1.1], [-1.0, 1.1], [1.0e4, 1.0]]
BADREQ = [["x", 1.0], [None, 1.0], [1.3, "y"], [1.3, None]]
RM = ("pstar", "ustar", "left_fastest", "right_fastest", "qstarL", "qstarR", "qsol", "qsol2", "repr")
INF = ("pstar", "ustar", "qstarL", "qstarR")


def rd(p, k):
    if k == "qsol":
        return p.qsol(np.linspace(-2.0, 2.0, 21))
    if k == "qsol2":
        return p.qsol(np.linspace(-0.7, 0.9, 9))
    if k == "repr":
        return repr(p)
    return getattr(p, k)()


def mkstate(g, v, boxed=False):
    import aerokit.aero.unsteady1D as uq
    if boxed:
        v = [np.array([x]) for x in v]
    return uq.unsteady_state(v[0], v[1], v[2], g)


def waves(q, p):
    return [float(np.asarray(x).reshape(-1)[0]) for x in (q.delta_u_expansion(p), q.delta_u_shock(p), q.rho_through_shock(p), q.rho_through_isentropic(p),
            q.asound(), q.Mach(), q.left_acoustic(), q.right_acoustic(), q.Ptot(), q.massflow())]


def ref_rm(a, b):
    import aerokit.instance.riemann as rm
    p = rm.riemann_pb(mkstate(*a), mkstate(*b))
    return {k: rd(p, k) for k in RM}


def ref_inf(a, req):
    import aerokit.instance.unsteady_inflow as inf
    p = inf.inflow_pb(mkstate(*a))
    p.solve_with_pt0_rtt0(*req)
    return {k: rd(p, k) for k in INF}


class W(World):
    def setup(self, cfg):
        self.q, self.pb, self.snap, self.kept = {}, {}, {}, {}
        self.g = {k: s[0] for k, s in cfg["states"].items()}
        for k, (g, v, boxed) in cfg["states"].items():
            self.q[k] = mkstate(g, v, boxed)
        for k, op in cfg.get("pbs", {}).items():
            self.create(op)

    def look(self, n):
        q = self.q[n]
        f = [float(np.asarray(x).reshape(-1)[0]) for x in (q.rho, q.u, q.p)]
        return [self.g[n], f, bool(np.ndim(q.rho))]

    def create(self, op):
        import aerokit.instance.riemann as rm
        import aerokit.instance.unsteady_inflow as inf
        if op[0] == "rm":
            s = [op[0], self.look(op[2]), self.look(op[3])]
            self.pb[op[1]] = rm.riemann_pb(self.q[op[2]], self.q[op[3]])
        else:
            s = [op[0], self.look(op[2])]
            self.pb[op[1]] = inf.inflow_pb(self.q[op[2]])
        self.snap[op[1]] = s

    def do(self, task, op):
        k = op[0]
        if k in ("rm", "inf"):
            return self.create(op)
        if k == "gas":
            import aerokit.common.defaultgas as d
            return d.set_gamma(op[1])
        if k == "set":          # the caller changes its state
            setattr(self.q[op[1]], op[2], op[3])
            return None
        if k == "lib":          # ... or asks it something
            return waves(self.q[op[1]], op[2])
        if k == "poke":         # ... in place when it holds arrays
            x = getattr(self.q[op[1]], op[2])
            if isinstance(x, np.ndarray) and x.ndim:
                x[0] = op[3]
            else:
                setattr(self.q[op[1]], op[2], op[3])
            return None
        if k == "re":
            self.q[op[1]].compute_from_pt_rtt_M(op[2], op[3], op[4])
            return None
        p = self.pb.get(op[1])
        if p is None:
            return "absent"
        if k == "solve":
            return p.solve_with_pt0_rtt0(*op[2])
        r = rd(p, k)
        if k in ("qsol", "qsol2") and len(op) > 2:
            if op[2] == "keep":             # a solution which was obtained remains what it is
                self.kept[self.sim.tasks[task].op] = r
            else:                           # ... and belongs to the caller
                c = copy.deepcopy(r)
                for x in (r.rho, r.u, r.p, r._gamma):
                    if isinstance(x, np.ndarray) and x.flags.writeable:
                        x[...] = -5.0
                return c
        if k in ("qstarL", "qstarR") and len(op) > 2:
            self.kept[self.sim.tasks[task].op] = r
        return r

    def final(self):
        out = {}
        for n, p in self.pb.items():
            out[n] = {}
            for k in (RM if self.snap[n][0] == "rm" else INF):
                try:
                    out[n][k] = ("ok", canon(rd(p, k)))
                except Exception as e:
                    out[n][k] = ("exc", type(e).__name__)
        return {"pb": out, "snap": json.dumps(self.snap), "kept": {i: canon(r) for i, r in self.kept.items()}}


class C07(Prop):
    id = "C07"
    preload = ("aerokit.instance.riemann", "aerokit.instance.unsteady_inflow")
    World = W
    runs = {"quick": 3000, "thorough": 56000}
    variants = 2
    modes = (("fault", 4), ("switch", 3), ("both", 3))
    fault_kinds = ("kint", "mem", "nocv")
    snapshot_globals = False
    budget = 100000

    def gen(self, rng):
        nt = rng.choice([1, 2, 2, 3])
        states, pbs, own = {}, {}, {}
        for t in range(nt):
            own[t] = []
            for i in range(rng.randint(1, 3)):
                n = "q%d%d" % (t, i)
                states[n] = [rng.choice(GAM), list(rng.choice(STATES + INIT)), False]
                own[t].append(n)
            n = "i%d" % t
            states[n] = [rng.choice(GAM), list(rng.choice(INIT)), rng.random() < .3]
            own[t].append(n)
        al = list(states)
        if rng.random() < .7:
            k = rng.random() < .5
            pbs["P"] = ["inf", "P", rng.choice([s for s in al if s[0] == "i"])] if k else ["rm", "P", *[rng.choice([s for s in al if s[0] == "q"]) for _ in "LR"]]
        if rng.random() < .3:
            pbs["Q"] = ["inf", "Q", rng.choice([s for s in al if s[0] == "i"])]
        tasks = []
        reqs = rng.sample(REQ, 3)
        for t in range(nt):
            mine = {k: p[0] for k, p in pbs.items()}
            ops = []
            for j in range(rng.randint(2, 7)):
                r = rng.random()
                qs = [s for s in own[t] if s[0] == "q"]
                iss = [s for s in own[t] if s[0] == "i"]
                if r < .12:
                    n = "p%d.%d" % (t, j)
                    ops.append(["rm", n, rng.choice(qs), rng.choice(qs)])
                    mine[n] = "rm"
                elif r < .22:
                    n = "p%d.%d" % (t, j)
                    ops.append(["inf", n, rng.choice(iss)])
                    mine[n] = "inf"
                elif r < .4:
                    s = rng.choice(own[t])
                    if rng.random() < .35:
                        ops.append(["lib", s, rng.choice([0.3, 0.9, 1.6])])
                    elif rng.random() < .3:
                        ops.append(["re", s, 1.2, 1.1, rng.choice([0.3, 0.6])])
                    else:
                        f = rng.choice(["rho", "u", "p"])
                        ops.append([rng.choice(["set", "poke"]), s, f, rng.choice([0.4, 0.9, 1.1] if f != "u" else [0.0, 0.4])])
                elif r < .46:
                    ops.append(["gas", rng.choice(GAM)])
                elif mine:
                    n = rng.choice(list(mine))
                    if mine[n] == "rm":
                        ops.append([rng.choice(RM), n])
                        if ops[-1][0].startswith("qsol") and rng.random() < .6:
                            ops[-1].append(rng.choice(["keep", "keep", "own"]))
                        elif ops[-1][0].startswith("qstar") and rng.random() < .5:
                            ops[-1].append("keep")
                    elif rng.random() < .45:
                        ops.append(["solve", n, rng.choice(BADREQ) if rng.random() < .15 else rng.choice(reqs)])
                    else:
                        ops.append([rng.choice(INF), n])
                        if ops[-1][0].startswith("qstar") and rng.random() < .5:
                            ops[-1].append("keep")
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o} for j, o in enumerate(ops)])
        return {"setup": {"states": states, "pbs": pbs}, "tasks": tasks}

    def judge(self, scen, rec, ctx):
        v = []
        fired = {f[0] for f in rec["fired"]}
        ops = {o["id"]: o["op"] for t in scen["tasks"] for o in t}
        snap = json.loads(rec["final"]["snap"])
        for i, op in ops.items():
            r = rec["out"].get(i)
            if r is not None and r[0] == "exc" and i not in fired and op[0] in ("rm", "inf", "set", "poke", "re", "gas", "lib"):
                v.append(("raises:" + op[0], "%s %s" % (op, outcome_str(r))))
        for i, r in rec["final"]["kept"].items():
            if rec["out"][i][0] == "ok" and not same(r, rec["out"][i][1], rtol=0, atol=0):
                v.append(("kept", "the solution obtained by %s was %s and became %s" % (ops[i], brief(rec["out"][i][1]), brief(r))))
        for n, s in snap.items():
            fin = rec["final"]["pb"][n]
            if s[0] == "rm":
                ref = ctx.ref(["rm", s[1], s[2]], ref_rm, s[1], s[2])
                if ref[0] != "ok":
                    continue
                for i, op in ops.items():
                    r = rec["out"].get(i)
                    if op[0] in RM and op[1] == n and r is not None and not (r[0] == "exc" and i in fired):
                        if not (r[0] == "ok" and (same(r[1], ref[1][op[0]]) or same(r[1], "absent"))):
                            v.append(("riemann:" + op[0], "%s of problem %s %s; a new problem with the states it was given gives %s" %
                                      (op[0], s, outcome_str(r), brief(ref[1][op[0]]))))
                for k in RM:
                    if not (fin[k][0] == "ok" and same(fin[k][1], ref[1][k])):
                        v.append(("riemann:" + k, "finally %s of problem %s is %s instead of %s" % (k, s, brief(fin[k]), brief(ref[1][k]))))
                continue
            reqs = sorted({json.dumps(o[2]) for o in ops.values() if o[0] == "solve" and o[1] == n and o[2] not in BADREQ})
            refs = {q: ctx.ref(["inf", s[1], q], ref_inf, s[1], json.loads(q)) for q in reqs}
            hist = []
            bad = False
            for i, op in ops.items():
                r = rec["out"].get(i)
                if r is None or op[0] not in INF + ("solve",) or op[1] != n or (r[0] == "ok" and same(r[1], "absent")):
                    continue
                if op[0] == "solve":
                    isbad = op[2] in BADREQ
                    tag = "ok" if r[0] == "ok" else ("maybe" if i in fired else "failed")
                    if tag == "failed" and not isbad and refs[json.dumps(op[2])][0] == "ok":
                        v.append(("solve-raises", "%s %s although nothing was injected" % (op, outcome_str(r))))
                        bad = True
                    if tag == "ok" and isbad:
                        bad = True
                    hist.append((r[3], r[4], ("w", None if isbad else json.dumps(op[2]), i), tag))
                else:
                    if r[0] == "exc" or r[1] is None:
                        if i in fired:
                            continue
                        m = frozenset(["unsolved"])
                    else:
                        m = frozenset(q for q in reqs if refs[q][0] == "ok" and same(r[1], refs[q][1][op[0]]))
                    hist.append((r[3], r[4], ("r", op[0], i), m))
            if bad:
                continue
            end = 1 << 30
            for k in INF:
                if fin[k][0] == "exc" or fin[k][1] is None:
                    m = frozenset(["unsolved"])
                else:
                    m = frozenset(q for q in reqs if refs[q][0] == "ok" and same(fin[k][1], refs[q][1][k]))
                hist.append((end, end + 1, ("r", k, "final"), m))
                end += 2

            def step(st, op, res):
                if op[0] == "w":
                    return {"ok": (op[1],), "failed": (st,), "maybe": (st, op[1]) if op[1] is not None else (st,)}[res]
                return (st,) if st in res else ()
            if not linearizable(hist, "unsolved", step):
                torn = [h[2] for h in hist if h[2][0] == "r" and not h[3]]
                v.append(("inflow:torn" if torn else "inflow:stale", "answers of inflow problem %s are no solution of the requests made: %s" %
                          (s, [(h[2], sorted(map(str, h[3])) if isinstance(h[3], frozenset) else h[3]) for h in hist])))
        return v


PROP = C07()
