"""C14 ODE integration reaches its end despite rejected steps and glitches"""
import numpy as np
from engine import *

# kind -> (right-hand side, initial value at x0, exact solution)
EQ = {
    "decay": (lambda x, y: -y, lambda x0: [1.0], lambda x, x0: [np.exp(-(x - x0))]),
    "grow": (lambda x, y: y, lambda x0: [0.5], lambda x, x0: [0.5 * np.exp(x - x0)]),
    "rot": (lambda x, y: np.array([y[1], -y[0]]), lambda x0: [np.sin(x0), np.cos(x0)], lambda x, x0: [np.sin(x), np.cos(x)]),
    "logistic": (lambda x, y: y * (1.0 - y), lambda x0: [0.25], lambda x, x0: [1.0 / (1.0 + 3.0 * np.exp(-(x - x0)))]),
    "stiff": (lambda x, y: -50.0 * (y - np.cos(x)) - np.sin(x), lambda x0: [np.cos(x0)], lambda x, x0: [np.cos(x)]),
    "fast": (lambda x, y: -3000.0 * (y - np.cos(300.0 * x)) - 300.0 * np.sin(300.0 * x), lambda x0: [np.cos(300.0 * x0)], lambda x, x0: [np.cos(300.0 * x)]),
    "poly": (lambda x, y: np.array([3.0 * x * x]), lambda x0: [x0 ** 3], lambda x, x0: [x ** 3]),
    "const": (lambda x, y: np.array([2.0]), lambda x0: [0.0], lambda x, x0: [2.0 * (x - x0)]),
    "zero": (lambda x, y: np.array([0.0]), lambda x0: [1.5], lambda x, x0: [1.5]),
}
RANGE = [[0.0, 1.0], [0.0, 2.0], [-1.0, 1.0], [0.5, 0.55], [0.0, 5.0], [2.0, 2.3], [100.0, 101.0], [0.0, 1.0000001], [0.0, 1.0000000007],
         [0.0, 1.00000000000001], [0.0, 1e-9], [1e6, 1000001.0], [-0.3, 0.0]]
BACK = [[1.0, 0.0], [0.5, -1.0], [2.0, 1.95]]
H = [0.1, 0.25, 2.0, 0.02]
TOL = [None, None, 1e-4, 1e-9]


class Stop(Exception):
    pass


def user(kind, cb=None, inner=None):
    f = EQ[kind][0]

    def F(x, y):
        r = cb("rhs") if cb is not None else None
        if r == "cbnan":
            return np.full(np.shape(y), np.nan)
        if r == "cbinf":
            return np.full(np.shape(y), np.inf)
        if r == "cbspike":
            return f(x, y) + 1e6
        if inner is not None:
            inner()
        return f(x, y)
    return F


def run(op, cb=None, y=None, inner=None):
    import aerokit.common._ode as od
    _, meth, kind, (a, b), h, tol = op[:6]
    if y is None:
        y = np.array(EQ[kind][1](a))
    if b < a:
        h = -h
    kw = {} if tol is None or meth == "RK4" else {"tol": tol}
    return getattr(od, meth)(user(kind, cb, inner), a, y, b, h, **kw)


class W(World):
    def setup(self, cfg):
        self.y0 = {}
        self.inner = []

    def do(self, task, op):
        key = (op[2], op[3][0])
        y = self.y0.setdefault(key, np.array(EQ[op[2]][1](op[3][0])))      # initial values are shared by the callers
        inn = None
        if len(op) > 6 and op[6]:
            cnt = [0]

            def inn():
                cnt[0] += 1
                if cnt[0] in (2, 9):
                    self.inner.append((op[6], canon(run(op[6]))))
        X, Y = run(op, self.sim.user_point, y, inn)
        keep = canon((X, Y))
        X[...] = 0.0
        Y[...] = 0.0
        return keep

    def final(self):
        return {"inner": self.inner, "y0": all(np.array_equal(v, np.array(EQ[k][1](a))) for (k, a), v in self.y0.items())}


class C14(Prop):
    id = "C14"
    preload = ("aerokit.common._ode",)
    World = W
    runs = {"quick": 3500, "thorough": 70000}
    variants = 2
    modes = (("fault", 7), ("switch", 1), ("both", 3))
    directed = ({"setup": {}, "tasks": [[{"id": "a", "op": ["ode", "RKF45", "rot", [0.0, 3000.0], 0.1, 1e-9]}]], "faults": [], "budget": 4000000},
                {"setup": {}, "tasks": [[{"id": "a", "op": ["ode", "RKF45", "rot", [0.0, 1500.0], 0.1, None]}]], "faults": [], "budget": 4000000})
    fault_kinds = ("cbnan", "cbnan", "cbspike", "cbspike", "cbinf", "cbraise", "kint", "mem")
    max_faults = 5
    snapshot_globals = False
    budget = 400000

    def fault_ok(self, scen, op, label, kind):
        # RK4 has no way to reject a step: a function lying to it decides the result
        return not (op["op"][1] == "RK4" and kind in ("cbnan", "cbspike", "cbinf"))

    def draw(self, rng, inner=True):
        m = rng.choice(["RK4", "RKF45", "RKF45", "RKF45"])
        r = rng.choice(RANGE + (BACK if m == "RKF45" else []))
        k = rng.choice(sorted(EQ))
        if k == "stiff" and (r[1] < r[0] or m == "RK4"):
            k = "rot"
        if k == "fast":
            m, r = "RKF45", rng.choice([[0.5, 0.55], [0.0, 0.02], [-0.01, 0.03]])
        if k == "poly" and r[0] > 1000.0:        # the tolerance is absolute: not within reach of values of 1e18
            k = "decay"
        op = ["ode", m, k, r, rng.choice(H), rng.choice(TOL)]
        if inner and rng.random() < .2:
            op.append(self.draw(rng, False))
        return op

    def gen(self, rng):
        nt = rng.choice([1, 1, 2])
        tasks = []
        for t in range(nt):
            ops = []
            for j in range(rng.randint(1, 3)):
                ops.append(self.draw(rng))
            if rng.random() < .5:
                ops.append(ops[-1])                   # try again
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o} for j, o in enumerate(ops)])
        return {"setup": {}, "tasks": tasks}

    def judge(self, scen, rec, ctx):
        v = []
        fired = {}
        for f in rec["fired"]:
            fired.setdefault(f[0], []).append(f)
        if not rec["final"]["y0"]:
            v.append(("initial", "the caller's initial values were modified"))
        for op, val in rec["final"]["inner"]:
            op = [x if not hasattr(x, "tolist") else x.tolist() for x in op]
            op[3] = [float(x) for x in op[3]]
            if not same_outcome(("ok", val), ctx.ref(["op", op[:6]], run, op[:6])):
                v.append(("inner", "%s called inside another integration gives another result" % op))
        for t in scen["tasks"]:
            for o in t:
                op, r, fs = o["op"], rec["out"].get(o["id"]), fired.get(o["id"], [])
                if r is None or (r[0] == "exc" and r[1][0] == "StepBudget"):
                    continue
                hard = [f for f in fs if f[2] in ("cbraise", "kint", "mem")]
                if hard:
                    want = type(simmod.make_fault(hard[-1][2])).__name__
                    if r[0] != "exc" or r[1][0] != want:
                        v.append(("swallowed", "%s met %s, but %s" % (op, hard[-1][2:], outcome_str(r))))
                    continue
                if r[0] == "exc" and op[3][1] > 1000.0 and r[1][0] == "RuntimeError":
                    continue                  # more steps needed than the method allows itself: said, not hidden
                if r[0] == "exc":
                    v.append(("raises", "%s %s" % (op, outcome_str(r))))
                    continue
                X, Y = np.asarray(r[1][0]), np.asarray(r[1][1])
                v += self.shape(op, X, Y, fs)
                if not fs:
                    ref = ctx.ref(["op", op[:6]], run, op[:6])
                    if not same_outcome(r, ref):
                        v.append(("result", "%s %s; in a fresh process it %s" % (op[:6], outcome_str(r), outcome_str(ref))))
        return v

    def shape(self, op, X, Y, fs):
        out = []
        (a, b), kind = op[3], op[2]
        g = " after %s" % [f[2] for f in fs] if fs else ""
        if X.size != len(Y) or X[0] != a:
            return [("points", "%s%s starts at %s with %d abscissas and %d values" % (op, g, X[0], X.size, len(Y)))]
        if abs(X[-1] - b) > 1e-12 * max(1.0, abs(b)):
            out.append(("end", "%s%s ends at %.15g instead of %.15g" % (op, g, X[-1], b)))
        d = np.diff(X) * (1.0 if b >= a else -1.0)
        if (d < -1e-14 * max(1.0, abs(b))).any():
            out.append(("monotonic", "%s%s goes back at %s" % (op, g, X[1:][d < 0][:3])))
        ex = np.array([np.broadcast_to(e, np.shape(X)) for e in [np.asarray(z) for z in EQ[kind][2](X, a)]]).T
        err = np.abs(np.asarray(Y).reshape(ex.shape) - ex)
        scale = max(1.0, np.abs(ex).max())
        if op[1] == "RK4":
            lim = 5.0 * scale * min(op[4], abs(b - a)) ** 4 + 1e-9 * scale
        else:
            lim = (100.0 * (op[5] or 1e-6) + 1e-9) * scale * max(1.0, abs(b - a) / 10.0)
        if sum(f[2] == "cbspike" for f in fs) > 1:
            return out            # once the step is tiny a second lie can hide below the tolerance: nobody can tell it from the truth
        if not np.isfinite(err).all() or err.max() > lim:
            out.append(("accuracy", "%s%s is wrong by %.3g (limit %.3g) at %.6g" % (op, g, np.nanmax(err) if np.isfinite(err).any() else np.nan, lim, X[int(np.argmax(err.max(axis=1)))])))
        return out


PROP = C14()
