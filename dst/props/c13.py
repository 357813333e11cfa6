"""C13 iterative inversions always end"""
import numpy as np
from engine import *

NAN, INF = float("nan"), float("inf")
A = "aerokit.aero."
SW, SU, MF, CF = A + "ShockWave", A + "Supersonic", A + "MassFlow", A + "CompressibleFlow"
MIX = [10.0, 200.0, -5.0]
GMIX = [1.5, 0.5, 3.0]
# name -> (module, attribute, argument pools); targets with and without solution
INV = {
    "Mn_Pt_ratio": (SW, "Mn_Pt_ratio", [[0.9, 0.5, 1.5, 1.0, -1.0, 0.0, 1e-12, NAN]]),
    "sigma": (SW, "sigma_Mach_deflection", [[2.0, 3.0, 1.0, 0.5, NAN], [0.0, 5.0, 10.0, 22.9, 60.0, -10.0, NAN, [5.0, 60.0, 10.0]]]),
    "sigma_init": (SW, "sigma_Mach_deflection", [[2.0, 3.0], [5.0, 60.0], [0.0, 90.0, 40.0, -30.0, NAN]]),
    "conical": (SW, "conical_deflection_Mach_sigma", [[2.0, 3.0, 1.2, 0.8], [20.0, 30.01, 40.0, 50.0, 70.0, 85.0, 90.0, 0.0, NAN]]),
    "conical_tol": (SW, "conical_deflection_Mach_sigma", [[2.0, 3.0], [40.0, 50.0], [1.4, 1.3], [1e-3, 1e-5, 1e-5, 1e-15]]),
    "conical_sigma": (SW, "conical_sigma_Mach_walldeflection", [[2.0, 3.0], [20.0, 15.0, 50.0, 0.0, NAN]]),
    "conical_Mach": (SW, "conical_Mach_walldeflection_sigma", [[20.0, 10.0], [50.0, 35.0, 15.0]]),
    "PM": (SU, "Mach_PrandtlMeyer", [[10.0, 26.0, 130.0, 200.0, -5.0, 0.0, NAN, MIX]]),
    "oldPM": (SU, "old_Mach_PrandtlMeyer", [[10.0, 26.0, 130.0, 200.0, -5.0, 0.0, NAN, MIX]]),
    "PMdev": (SU, "IsentropicPsratio_Mach_deflection", [[2.0, 3.0, 1.0, 0.5], [5.0, 40.0, -200.0, 100.0, NAN]]),
    "Sub": (MF, "MachSub_Sigma", [[1.1, 3.0, 1.0, 0.5, 1e6, -1.0, 0.0, NAN, GMIX]]),
    "Sup": (MF, "MachSup_Sigma", [[1.1, 3.0, 1.0, 0.5, 1e6, -1.0, 0.0, NAN, GMIX]]),
    "Mach_Sigma": (MF, "Mach_Sigma", [[1.5, 3.0, 0.5, NAN, GMIX], [2.0, 0.3, 1.0, 0.0, [0.5, 2.0, 2.0]]]),
    "cfPM": (CF, "Mach_PrandtlMeyer", [[10.0, 130.0, 200.0, NAN]]),
    "cfSigma": (CF, "Mach_Sigma", [[1.5, 0.5, NAN], [2.0, 0.3]]),
    "cfPMdev": (CF, "IsentropicPsratio_Mach_deflection", [[2.0, 0.5], [5.0, 100.0]]),
    "riemann": (None, "riemann", [[[1.0, 0.0, 1.0], [1.0, -20.0, 0.4], [1e-6, 0.0, 1e-6]], [[0.125, 0.0, 0.1], [1.0, 20.0, 0.4], [1.0, 0.0, 1e6], [1.0, 0.0, NAN]]]),
    "inflow": (None, "inflow", [[[1.0, 0.2, 1.0], [1.0, 5.0, 1.0]], [1.3, 0.5, 100.0, -1.0, NAN], [1.1, -1.0, NAN]]),
    "nozzle": (None, "nozzle", [[1.05, 2.0, 60.0, 1.0, 0.5, 1e9, 0.0, -1.0]]),
}
SLOW = ("conical", "conical_sigma", "conical_Mach", "conical_tol")
EQ = ["sqr", "exp", "cub", "const", "zero", "step", "saw", "nan", "inf", "sqrt", "huge", "alt", "raise3", "str", "reent", "pole", "flat", "int", "none"]
Y = [0.5, 2.0, -1.0, 0.0, NAN, 1e9, [0.5, -1.0, 2.0]]
X0 = [1.0, 1.3, -2.0, 0.0, 1e6, [1.0, 1.2, 3.0]]
TOL = [None, None, None, 0.0, -1.0, NAN]
MAXEVAL = 1000


class Stop(Exception):
    """raised by the user's own function"""


def equation(kind, depth=0):
    n = [0]

    def f(x):
        n[0] += 1
        if kind == "sqr":
            return x * x
        if kind == "exp":
            return np.exp(x) - 1.0
        if kind == "cub":
            return x ** 3 + x
        if kind == "const":
            return 3.0
        if kind == "zero":
            return np.float64(0.0)
        if kind == "step":
            return 1.0 if x > 1.1 else -1.0
        if kind == "saw":
            return x - np.floor(x)
        if kind == "nan":
            return NAN
        if kind == "inf":
            return INF
        if kind == "sqrt":
            return np.sqrt(x - 10.0)
        if kind == "huge":
            return np.exp(50.0 * x)
        if kind == "alt":
            return (-1.0) ** n[0] * (1.0 + n[0])
        if kind == "raise3":
            if n[0] == 3:
                raise Stop("third call")
            return x * x
        if kind == "str":
            return "one"
        if kind == "none":
            return None
        if kind == "reent":
            from aerokit.aero.IterativeSolve import secant_solve
            return x + 0.1 * float(secant_solve(lambda z: z * z, 2.0, 1.0))
        if kind == "pole":
            return 1.0 / (x - 1.5)
        if kind == "flat":
            return np.tanh(1e3 * (x - 5.0))
        if kind == "int":
            return int(np.clip(x, -1e6, 1e6)) if x == x else 0
    return f


def arg(x):
    return np.array(x) if isinstance(x, list) else x


def run(op, cb=None, evals=None):
    if op[0] == "sec":
        from aerokit.aero.IterativeSolve import secant_solve
        f = equation(op[1])

        def F(x):
            if evals is not None:
                evals[0] += 1
            r = cb("eq") if cb is not None else None
            if r == "cbnan":
                return NAN
            if r == "cbzero":
                return 0.0
            return f(x)
        kw = {} if op[4] is None else {"tol": op[4]}
        return secant_solve(F, arg(op[2]), arg(op[3]), **kw)
    mod, attr, _ = INV[op[1]]
    a = [arg(x) for x in op[2]]
    if mod:
        return getattr(importlib.import_module(mod), attr)(*a)
    if attr == "nozzle":
        import aerokit.instance.nozzle as nz
        x = np.linspace(-1.0, 1.0, 12)
        n = nz.nozzle(x, 1.0 + x * x * 0.8, NPR=a[0])
        return n.Mach(), n.Ps()
    import aerokit.aero.unsteady1D as uq
    if attr == "riemann":
        import aerokit.instance.riemann as rm
        p = rm.riemann_pb(uq.unsteady_state(*a[0]), uq.unsteady_state(*a[1]))
        return p.pstar(), p.ustar()
    import aerokit.instance.unsteady_inflow as inf
    p = inf.inflow_pb(uq.unsteady_state(*a[0]))
    p.solve_with_pt0_rtt0(a[1], a[2])
    return p.pstar(), p.ustar()


class W(World):
    def do(self, task, op):
        ev = [0]
        try:
            return run(op, self.sim.user_point if op[0] == "sec" else None, ev)
        finally:
            size = max([np.size(x) for x in op[2:4]]) if op[0] == "sec" else 1
            if ev[0] > MAXEVAL * size:
                self.note("work", "%s evaluated the user's function %d times" % (op, ev[0]))


class C13(Prop):
    id = "C13"
    preload = tuple(sorted({v[0] for v in INV.values() if v[0]})) + ("aerokit.instance.nozzle", "aerokit.instance.riemann", "aerokit.instance.unsteady_inflow",
                                                                     "aerokit.aero.IterativeSolve")
    World = W
    runs = {"quick": 3000, "thorough": 80000}
    modes = (("fault", 6), ("switch", 2), ("both", 2))
    fault_kinds = ("cbnan", "cbnan", "cbzero", "cbzero", "cbraise", "kint", "mem", "nocv", "epipe", "enospc")
    max_faults = 4
    directed = ({"setup": {}, "tasks": [[{"id": "a", "op": ["inv", "conical", [0.8, 95.0]]}]], "faults": [], "budget": 12000000},
                {"setup": {}, "tasks": [[{"id": "a", "op": ["inv", "conical", [3.0, -10.0]]}]], "faults": [], "budget": 12000000},
                {"setup": {}, "tasks": [[{"id": "a", "op": ["inv", "conical_sigma", [3.0, 60.0]]}]], "faults": [], "budget": 12000000})
    rule_extra = ", or a target without solution or a misbehaving user function was used"

    def trivial_ok(self, scen, rec):
        return True

    def gen(self, rng):
        nt = rng.choice([1, 1, 2])
        tasks = []
        for t in range(nt):
            ops = []
            for j in range(rng.randint(1, 4)):
                if rng.random() < .55:
                    ops.append(["sec", rng.choice(EQ), rng.choice(Y), rng.choice(X0), rng.choice(TOL)])
                else:
                    n = rng.choice(sorted(INV))
                    if n in SLOW and rng.random() < .7:
                        n = rng.choice([x for x in sorted(INV) if x not in SLOW])
                    ops.append(["inv", n, [rng.choice(p) for p in INV[n][2]]])
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o, **({"budget": 12000000} if o[1] in SLOW else {})} for j, o in enumerate(ops)])
        return {"setup": {}, "tasks": tasks, "budget": 100000}

    def judge(self, scen, rec, ctx):
        v = []
        fired = {}
        for f in rec["fired"]:
            fired.setdefault(f[0], []).append(f)
        for t in scen["tasks"]:
            for o in t:
                op, r, fs = o["op"], rec["out"].get(o["id"]), fired.get(o["id"], [])
                if r is None or (r[0] == "exc" and r[1][0] == "StepBudget"):
                    continue
                hard = [f for f in fs if f[2] not in ("cbnan", "cbzero")]
                if hard:
                    want = type(simmod.make_fault(hard[-1][2])).__name__
                    if op[0] == "sec" and hard[-1][2] == "cbraise" and (r[0] != "exc" or r[1][0] != want):
                        v.append(("swallowed", "%s: the user's function raised, but the call %s" % (op, outcome_str(r))))
                    if r[0] == "exc":
                        continue
                if fs and not hard:
                    continue                 # the user's function lied: ending is all that is asked
                ref = ctx.ref(["op", op], run, op)
                if not same_outcome(r, ref):
                    v.append(("result:" + op[1], "%s %s; alone in a fresh process it %s" % (op, outcome_str(r), outcome_str(ref))))
                if op[0] == "sec" and op[1] == "raise3" and r[0] == "exc" and r[1][0] != "Stop" and not fs:
                    v.append(("swallowed", "%s %s instead of the user's exception" % (op, outcome_str(r))))
        return v


PROP = C13()
