"""C09 eigenpair refinement survives singular solves and never lies"""
import numpy as np
from engine import *

N = 8
# operators: kind -> parameters; "mat" is a user-defined operator (documented way: a derived class)
SPEC = {"per": ["euler", 0.5, "per"], "sym": ["euler", 0.6, "sym"], "pois": ["pois", 10, 1.0, 1000.0], "pois2": ["pois", 12, 0.9, 500.0],
        "diag": ["mat", [[1.0, 0, 0], [0, 2.0, 0], [0, 0, 4.0]]], "tri": ["mat", [[2.0, 1.0, 0], [0, 3.0, 1.0], [0, 0, 5.0]]],
        "full": ["mat", [[1.0, 2.0, 3.0], [1.0, 2.0, 1.0], [3.0, 2.0, 1.0]]]}
# estimates: factor/offset applied to an exact pair, or an absolute frequency and a vector
EST = [["near", 0, 1.001, 1e-3], ["near", 1, 0.98, 1e-2], ["exact", 0], ["exact", 2], ["abs", 0.7 + 0.1j, "ones"], ["abs", 2.0, "ramp"], ["abs", 1.0, "e0"],
       ["abs", 3.0, "real"], ["abs", 5.0 + 0.0j, "ramp"]]


def mk(name):
    s = SPEC[name]
    if s[0] == "euler":
        import aerokit.stability.Euler as eu
        import aerokit.aero.model1D as m1
        o = eu.Euler1D(N, xmin=0.0, xmax=1.0)
        x = o.x
        o.set_basestate(m1.state(1.0 + 0.1 * x, s[1] * (1.0 + 0.1 * x), (1.0 + 0.05 * x) / 1.4, 1.4))
        o.set_BC(s[2], s[2])
        return o
    if s[0] == "pois":
        import aerokit.stability.OrrSommerfeld as os_
        return os_.Poiseuille(s[1], s[2], s[3])
    import aerokit.stability as st

    class Op(st.LinOperator):
        def compute_operators(self):
            self._B = np.array(s[1])
            self._At = np.eye(len(s[1])) / self._harmonic_time_coef
    return Op(len(s[1]))


def pairs(o):
    vals, vects = o.solve_eig()
    k = [i for i in range(len(vals)) if np.isfinite(vals[i]) and abs(vals[i]) < 1e4]
    k.sort(key=lambda i: (round(-vals[i].imag, 6), round(vals[i].real, 6)))
    return [(complex(vals[i]), np.array(vects[:, i])) for i in k]


def estimate(name, e):
    o = mk(name)
    n = o.get_RHS_time_matrices()[0].shape[0]
    if e[0] == "abs":
        v = {"ones": np.ones(n, dtype=complex), "ramp": np.linspace(1.0, 2.0, n) + 0.1j, "e0": np.eye(n)[0], "real": np.linspace(-1.0, 2.0, n)}[e[2]]
        return e[1], v
    p = pairs(o)
    w, v = p[min(e[1], len(p) - 1)]
    if e[0] == "exact":
        return w, v * 3.0
    return w * e[2] + e[3], v + 0.01 * np.linspace(-1.0, 1.0, n)


def clean(name, e, niter, solved=False):
    o = mk(name)
    w, v = estimate(name, e)
    return o.converge_eigenpair(w, v, niter)


def matrices(name):
    B, A = mk(name).get_RHS_time_matrices()
    return np.array(B), np.array(A)


def vals_of(name):
    return [w for w, _ in pairs(mk(name))]


class W(World):
    def setup(self, cfg):
        self.o, self.e = {}, {}
        for n, built in cfg["ops"].items():
            self.o[n] = mk(n.split(".")[0])
            if built:
                self.o[n].get_RHS_time_matrices()
        for k, (n, i) in cfg["est"].items():
            self.e[k] = estimate(n, EST[i])
        self.start = canon(self.e)

    def do(self, task, op):
        o = self.o[op[1]]
        if op[0] == "conv":
            w, v = self.e[op[2]]
            r = o.converge_eigenpair(w, v, op[3])
            keep = complex(r[0]), np.array(r[1])
            r[1][...] = 7.0                   # the caller owns what it received
            return keep
        if op[0] == "mat":
            B, A = o.get_RHS_time_matrices()
            return np.array(B), np.array(A)
        if op[0] == "eig":
            return [w for w, _ in pairs(o)]

    def final(self):
        return {"mats": {n: self.do(0, ["mat", n]) for n in self.o}, "est": same(canon(self.e), self.start, rtol=0, atol=0)}


class C09(Prop):
    id = "C09"
    preload = ("aerokit.stability.Euler", "aerokit.stability.OrrSommerfeld")
    World = W
    runs = {"quick": 3000, "thorough": 62999}
    variants = 3
    modes = (("fault", 6), ("switch", 2), ("both", 3))
    fault_kinds = ("singular", "singular", "singular", "singular", "linalg", "kint", "mem")
    max_faults = 5
    snapshot_globals = False
    budget = 100000

    def fault_ok(self, scen, op, label, kind):
        if kind != "singular":
            return True
        return op["op"][0] == "conv"

    def gen(self, rng):
        nt = rng.choice([1, 1, 2, 2])
        ops, est, tasks, mine = {}, {}, [], {t: [] for t in range(nt)}
        for i in range(rng.randint(1, 2)):       # shared, already built
            ops["%s.s%d" % (rng.choice(list(SPEC)), i)] = True
        shared = list(ops)
        for t in range(nt):
            if rng.random() < .5:
                n = "%s.t%d" % (rng.choice(list(SPEC)), t)
                ops[n] = False
                mine[t].append(n)
        for t in range(nt):
            l = []
            for j in range(rng.randint(1, 4)):
                n = rng.choice(shared + mine[t])
                r = rng.random()
                if r < .75:
                    k = n.split(".")[0]
                    i = rng.randrange(len(EST))
                    if k in ("diag", "tri", "full") or EST[i][0] != "abs" or rng.random() < .5:
                        key = "%s#%d" % (k, i)
                        est[key] = [k, i]
                        l.append(["conv", n, key, rng.choice([0, 1, 2, 2, 3, 3, 5])])
                        continue
                    l.append(["mat", n])
                elif r < .9:
                    l.append(["mat", n])
                else:
                    l.append(["eig", n])
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o} for j, o in enumerate(l)])
        return {"setup": {"ops": ops, "est": est}, "tasks": tasks}

    def judge(self, scen, rec, ctx):
        v = []
        if not rec["final"]["est"]:
            v.append(("estimate", "the caller's estimates were modified"))
        fired = {}
        for f in rec["fired"]:
            fired.setdefault(f[0], []).append(f)
        for t in scen["tasks"]:
            for o in t:
                op, r = o["op"], rec["out"].get(o["id"])
                if r is None:
                    continue
                fs = fired.get(o["id"], [])
                hard = [f for f in fs if f[2] != "singular"]
                name = op[1].split(".")[0]
                if hard:
                    t0 = type(make_fault_kind(hard[-1][2])).__name__
                    if r[0] != "exc" or r[1][0] != t0:
                        v.append(("swallowed", "%s met %s and %s" % (op, hard[-1][2:], outcome_str(r))))
                    continue
                if op[0] == "mat":
                    if not same_outcome(r, ctx.ref(["mat", name], matrices, name)):
                        v.append(("matrices", "%s %s" % (op, outcome_str(r))))
                elif op[0] == "eig":
                    if not same_outcome(r, ctx.ref(["eig", name], vals_of, name), rtol=1e-6, atol=1e-7):
                        v.append(("eig", "%s %s" % (op, outcome_str(r))))
                else:
                    e = scen["setup"]["est"][op[2]]
                    m = max(0, op[3] - len(fs))
                    ref = ctx.ref(["conv", e, m], clean, e[0], EST[e[1]], m)
                    if ref[0] == "exc" and r[0] == "exc":
                        continue
                    if r[0] == "exc":
                        v.append(("fails" + ("-singular" if fs else ""), "%s with %d singular solves of %d %s; expected %s" % (op, len(fs), op[3], outcome_str(r), outcome_str(ref))))
                        continue
                    if len(fs) == 1 and not same_outcome(r, ref, rtol=1e-7, atol=1e-9):
                        # stopping at the singular solve is as good: nothing else could be refined
                        for j in range(m):
                            e1 = ctx.ref(["conv", e, j], clean, e[0], EST[e[1]], j)
                            if same_outcome(r, e1, rtol=1e-7, atol=1e-9):
                                ref, m = e1, j
                                break
                    if not same_outcome(r, ref, rtol=1e-7, atol=1e-9):
                        v.append(("pair" + ("-singular" if fs else ""), "%s with %d singular solves of %d %s; the %d successful iterations alone give %s" %
                                  (op, len(fs), op[3], outcome_str(r), m, outcome_str(ref))))
                    v += self.consistent(op, name, r[1], ctx, m)
        for n, got in rec["final"]["mats"].items():
            if not same(got, ctx.ref(["mat", n.split(".")[0]], matrices, n.split(".")[0])[1]):
                v.append(("operator", "the matrices of %s were modified" % n))
        return v

    def consistent(self, op, name, val, ctx, m):
        w, x = complex(val[0]), np.asarray(val[1])
        if not np.isfinite(x).all():
            return []
        out = []
        if abs(np.linalg.norm(x) - 1.0) > 1e-9:
            out.append(("norm", "%s returned a mode of norm %g" % (op, np.linalg.norm(x))))
        B, A = ctx.ref(["mat", name], matrices, name)[1]
        M = -1j * A
        q = np.vdot(x, M @ x)
        if m > 0 and abs(q) > 1e-8 and op[2].split("#")[0] not in () :
            ray = np.vdot(x, B @ x) / q
            # without any successful solve the pair is the caller's estimate
            if abs(ray - w) > 1e-6 * max(1.0, abs(ray)) and not self.stalled(op):
                out.append(("frequency", "%s returned %s for a mode whose Rayleigh quotient is %s" % (op, w, ray)))
        return out

    def stalled(self, op):
        return EST[int(op[2].split("#")[1])][0] in ("exact", "abs")   # a true singularity may leave the estimate


def make_fault_kind(k):
    return simmod.make_fault(k)


PROP = C09()
