"""C08 stability operators follow their current base state and boundary conditions"""
import numpy as np
from engine import *

N = 8
# named base states: Euler states on N points (one has a wrong size), Orr-Sommerfeld dictionaries
EB = {"e0": [1.4, 0.50, 0.2], "e1": [1.3, 0.60, 0.1], "e2": [1.4, 0.55, -0.1], "e3": [1.2, 0.70, 0.0], "ebad": [1.4, 0.5, None]}
OB = {"o0": [1.0, 1000.0, "pois"], "o1": [0.8, 1000.0, "pois"], "o2": [1.0, 400.0, "couette"], "o3": [1.1, 2000.0, "cubic"],
      "obad1": [1.0, 500.0, None], "obad2": [1.0, None, "pois"]}
PROF = {"pois": lambda x: 1.0 - x ** 2, "couette": lambda x: 0.5 * (1.0 + x), "cubic": lambda x: x - x ** 3 / 3.0}
BC = {"sym": "sym", "dsym": {"type": "sym"}, "per": "per", "dper": {"type": "per"}, "rh0": {"type": "RH", "dM0dx": 0.3}, "rh1": {"type": "RH", "dM0dx": -0.5},
      "rhno": {"type": "RH"}, "rhbad": {"type": "RH", "dM0dx": 0.1, "foo": 1.0}, "nope": "nope", "dnope": {"type": "nope"}, "wall": "wall", "dwall": {"type": "wall"}}
EBC = [("sym", "sym"), ("dsym", "sym"), ("per", "per"), ("dper", "per"), ("rh0", "sym"), ("rh1", "dsym"), ("sym", "dsym"), ("rh0", "dsym"), ("dper", "dper")]
EBADBC = [("per", "sym"), ("rhno", "sym"), ("rhbad", "dsym"), ("nope", "sym"), ("sym", "dnope"), ("sym", "per"), ("wall", "wall")]
OBC = [("wall", "wall"), ("dwall", "wall"), ("dwall", "dwall")]
OBADBC = [("sym", "wall"), ("wall", "nope"), ("dnope", "dwall")]
DOM = [[0.0, 1.0], [0.0, 2.0], [-1.0, 1.0]]


def ebase(v):
    import aerokit.aero.model1D as m1
    g, u, s = v
    x = np.linspace(0.0, 1.0, N if s is not None else N - 2)
    s = s or 0.0
    return m1.state(1.0 + 0.2 * s * x, u * (1.0 + s * x), (1.0 - 0.3 * s * x) / g, g)


def obase(v, cb=None):
    d = {"alpha": v[0]}
    if v[1] is not None:
        d["Reynolds"] = v[1]
    if v[2] is not None:
        f = PROF[v[2]]

        def prof(x):
            if cb:
                cb("uprofile")
            return f(x)
        d["uprofile"] = prof
    return d


def newop(kind, dom, base=None):
    import aerokit.stability.Euler as eu
    import aerokit.stability.OrrSommerfeld as os_
    if kind == "euler":
        return eu.Euler1D(N, xmin=dom[0], xmax=dom[1], basestate=base)
    return os_.OrrSommerfeldModel(N, xmin=dom[0], xmax=dom[1], basestate=base)


def mat(o):
    B, A = o.get_RHS_time_matrices()
    return np.array(B), np.array(A)


def sel(o):
    vals, vects, order = o.select_and_sort(sort="imag", realmin=-1e3, realmax=1e3, imagmin=-1e3, imagmax=1e3)
    return vals[order], np.abs(vects[:, order])


def fresh(kind, dom, base, L, R, what):
    o = newop(kind, dom)
    if base:
        o.set_basestate(ebase(EB[base]) if kind == "euler" else obase(OB[base]))
    if L:
        o.set_BC(copy.deepcopy(BC[L]), copy.deepcopy(BC[R]))
    if what == "sel":
        o.solve_eig()
    return {"mat": mat, "sel": sel}[what](o)


class W(World):
    def setup(self, cfg):
        self.bases = {k: ebase(v) for k, v in EB.items()}
        self.bases.update({k: obase(v, lambda n: self.sim.user_point(n) if self.s[0] else None) for k, v in OB.items()})
        self.bcs = copy.deepcopy(BC)
        self.o, self.own, self.ownbc = {}, {}, {}
        self.start = self.inputs()

    def inputs(self):
        return canon((self.bases, self.bcs))

    def do(self, task, op):
        k = op[0]
        if k == "gas":
            import aerokit.common.defaultgas as d
            return d.set_gamma(op[1])
        if k == "new":
            self.o[op[1]] = newop(op[2], op[3], self.bases[op[4]] if op[4] else None)
            # objects which the caller changes in place and sets again
            self.own[op[1]] = ebase(EB["e0"]) if op[2] == "euler" else obase(OB["o0"])
            self.ownbc[op[1]] = {"type": "RH", "dM0dx": 0.0}
            return None
        o = self.o.get(op[1])
        if o is None:
            return "absent"
        if k == "base":
            return o.set_basestate(self.bases[op[2]])
        if k == "own":
            b = self.own[op[1]]
            b.__dict__.update(ebase(EB[op[2]]).__dict__) if op[2] in EB else b.update(obase(OB[op[2]]))
            return o.set_basestate(b)
        if k == "ownbc":
            b = self.ownbc[op[1]]
            b.clear()
            b.update(BC[op[2]])
            return o.set_BC(b, op[3])
        if k == "bc":
            return o.set_BC(self.bcs[op[2]], self.bcs[op[3]])
        if k == "mat":
            return mat(o)
        if k == "eig":
            o.solve_eig()
            return None
        if k == "sel":
            return sel(o)
        if k == "conv":
            w, m = o.converge_eigenpair(0.7 + 0.1j, np.ones(o.get_RHS_time_matrices()[0].shape[0], dtype=complex), niter=2)
            return None
        if k == "x":
            return o.x, o.dim

    def final(self):
        out = {}
        for n, o in self.o.items():
            try:
                out[n] = ("ok", canon(mat(o)))
            except Exception as e:
                out[n] = ("exc", type(e).__name__)
        return {"ops": out, "inputs": same(canon(self.inputs()), canon(self.start))}


class C08(Prop):
    id = "C08"
    preload = ("aerokit.stability.Euler", "aerokit.stability.OrrSommerfeld")
    World = W
    runs = {"quick": 2625, "thorough": 52500}
    variants = 3
    modes = (("fault", 5), ("switch", 2), ("both", 3))
    fault_kinds = ("kint", "mem", "linalg", "epipe", "enospc", "cbraise")
    snapshot_globals = False
    max_faults = 3
    budget = 200000

    def gen(self, rng):
        nt = rng.choice([1, 1, 2])
        tasks = []
        for t in range(nt):
            ops, mine = [], []
            for j in range(rng.randint(1, 2)):
                k = rng.choice(["euler", "euler", "os"])
                n = "p%d%d" % (t, j)
                b = rng.choice([None, self.base(rng, k)])
                ops.append(["new", n, k, rng.choice(DOM), b])
                mine.append((n, k))
                if rng.random() < .8:
                    if b is None:
                        ops.append(["base", n, self.base(rng, k)])
                    L = rng.choice(EBC if k == "euler" else OBC)
                    ops.append(["bc", n, *L])
            for j in range(rng.randint(3, 10)):
                n, k = rng.choice(mine)
                r = rng.random()
                if r < .22:
                    ops.append(["base", n, self.base(rng, k)])
                    if rng.random() < .4:
                        ops[-1] = ["own", n, rng.choice([b for b in (EB if k == "euler" else OB) if "bad" not in b])]
                elif r < .46:
                    good, bad = (EBC, EBADBC) if k == "euler" else (OBC, OBADBC)
                    ops.append(["bc", n, *rng.choice(bad if rng.random() < .25 else good)])
                    if k == "euler" and rng.random() < .3:
                        ops[-1] = ["ownbc", n, rng.choice(["rh0", "rh1", "dsym"]), "sym"]
                elif r < .75:
                    ops.append(["mat", n])
                elif r < .82:
                    ops.append(["eig", n])
                elif r < .88:
                    ops.append(["sel", n])
                elif r < .92:
                    ops.append(["conv", n])
                elif r < .96:
                    ops.append(["gas", rng.choice([1.25, 1.1, 1.5])])
                else:
                    ops.append(["x", n])
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o} for j, o in enumerate(ops)])
        return {"setup": {}, "tasks": tasks}

    def base(self, rng, k):
        pool = EB if k == "euler" else OB
        good = [b for b in pool if "bad" not in b]
        return rng.choice([b for b in pool if "bad" in b]) if rng.random() < .12 else rng.choice(good)

    def judge(self, scen, rec, ctx):
        v = []
        fired = {f[0] for f in rec["fired"]}
        if not rec["final"]["inputs"]:
            v.append(("inputs", "the caller's base states or boundary condition dictionaries were modified"))
        info, cand, fuzzy = {}, {}, set()

        def ref(n, c, what="mat"):
            k, dom = info[n]
            return ctx.ref(["op", k, dom, c[0], c[1], c[2], what], fresh, k, dom, c[0], c[1], c[2], what)

        for t in scen["tasks"]:
            for o in t:
                op, i = o["op"], o["id"]
                r = rec["out"].get(i)
                if r is None or op[0] == "gas":
                    continue
                n = op[1]
                if op[0] == "new":
                    bad = op[4] in ("obad1", "obad2")
                    if r[0] == "ok":
                        info[n] = (op[2], op[3])
                        cand[n] = [(op[4], None, None, None)]
                    elif i not in fired and not bad:
                        v.append(("new", "%s %s" % (op, outcome_str(r))))
                    continue
                if n not in info:
                    continue
                k = info[n][0]
                cs = cand[n]
                if op[0] in ("base", "bc", "own", "ownbc"):
                    if op[0] in ("base", "own"):
                        bad = op[2] in ("obad1", "obad2")
                        new = [(op[2], c[1], c[2], c[3]) for c in cs]
                    else:
                        types = [BC[x] if isinstance(BC[x], str) else BC[x]["type"] for x in op[2:4]]
                        ok = ("sym", "per", "RH") if k == "euler" else ("wall",)
                        bad = any(x not in ok for x in types)
                        new = [(c[0], op[2], op[3], c[3]) for c in cs]
                    if r[0] == "ok":
                        if bad:
                            v.append(("accepts", "%s accepted although invalid" % op))
                        cand[n] = new
                        fuzzy.discard((n, op[0][-4:] == "base" or op[0] == "own"))
                    elif i in fired:
                        if op[0].startswith("own"):
                            fuzzy.add((n, op[0] == "own"))    # the object may be in use, changed but not set
                        cand[n] = cs + ([] if bad else [x for x in new if x not in cs])
                    elif not bad:
                        v.append(("refuses:" + op[0], "%s %s" % (op, outcome_str(r))))
                elif op[0] == "mat":
                    if r[0] == "exc" and i in fired:
                        continue
                    ok = [c for c in cs if same_outcome(r, ref(n, c))]
                    if not ok:
                        v.append(("matrices:" + k, "%s after %s: %s; a new operator with the current base state and conditions %s: %s" %
                                  (op, self.hist(t, o, n, rec), outcome_str(r), cs[-1][:3], outcome_str(ref(n, cs[-1])))))
                    elif not any(f[0] == n for f in fuzzy):
                        cand[n] = ok
                elif op[0] == "eig":
                    if r[0] == "exc":
                        if i not in fired and not any(ref(n, c)[0] == "exc" or self.nonfinite(ref(n, c)) for c in cs):
                            v.append(("eig", "%s %s" % (op, outcome_str(r))))
                        continue
                    cand[n] = [(c[0], c[1], c[2], c[:3]) for c in cs if ref(n, c)[0] == "ok"]
                    if not cand[n]:
                        v.append(("eig", "%s succeeded although no operator can be built" % op))
                        cand[n] = cs
                elif op[0] == "sel":
                    if r[0] == "exc" and i in fired:
                        continue
                    if any(c[3] is None for c in cs):
                        continue
                    if not any(same_outcome(r, ref(n, c[3], "sel"), rtol=1e-6, atol=1e-8) for c in cs):
                        v.append(("eigenvalues:" + k, "%s after %s differs from a new operator" % (op, self.hist(t, o, n, rec))))
        for n, got in rec["final"]["ops"].items():
            if n in cand:
                if not any((got[0] == "ok") == (ref(n, c)[0] == "ok") and (got[0] == "exc" or same(got[1], ref(n, c)[1])) for c in cand[n]):
                    v.append(("final:" + info[n][0], "finally the matrices of %s (%s) are not those of a new operator with %s" % (n, info[n][0], cand[n][-1][:3])))
        return v

    def nonfinite(self, r):
        return not all(np.isfinite(x).all() for x in r[1])

    def hist(self, t, upto, n, rec):
        out = []
        for o in t:
            if o is upto:
                break
            if o["op"][0] != "gas" and o["op"][1] == n:
                r = rec["out"].get(o["id"])
                out.append("/".join(map(str, o["op"][:1] + o["op"][2:])) + ("" if r and r[0] == "ok" else "!"))
        return " ".join(out)


PROP = C08()
