"""C10 spectral tables are right for every history of requests"""
import numpy as np
from engine import *

DOM = [[None, None], [0.0, 2.0], [-1.0, 3.0], [0.0, 1.0]]
X = {"in": [0.1, 0.5, 0.9], "x9": np.linspace(0.05, 0.95, 9).tolist(), "one": [0.3]}


def mk(s):
    import aerokit.common.numspectral as ns
    return ns.ChebCollocation(s[0], s[1], s[2])


def ask(o, s, op):
    k = op[0]
    a, b = s[1] if s[1] is not None else -1.0, s[2] if s[2] is not None else 1.0
    pts = a + (b - a) * np.array(X[op[2]]) if k in ("ext", "fit") else None
    if k == "mat":
        return o.matder(op[2])
    if k == "cm":
        return o.compute_matder(op[2])
    if k == "x":
        return np.array(o.x)
    if k == "xi":
        return np.array(o.xi)
    if k == "npts":
        return o.npts
    if k == "ext":
        v = np.sin(1.3 * o.x) + o.x ** 2
        if len(op) > 3:                     # complex data (modes), several fields at once, whole numbers, plain lists
            v = {"cplx": v * (1.0 + 0.5j) + 1j * o.x, "2d": np.stack([v, o.x ** 3], axis=1), "int": np.arange(v.size) - 2, "list": v.tolist()}[op[3]]
        return o.extrapol(v, pts)
    if k == "fit":
        w = {"in": 1.0, "x9": 1.4, "one": 0.7}[op[2]]      # as many data points, elsewhere
        xx = a + (b - a) * np.linspace(0.0, 1.0, 17) ** w
        y = np.cos(xx) + pts.size
        if len(op) > 3:
            y = {"cplx": y + 1j * xx, "int": np.arange(xx.size) % 5, "list": y.tolist(), "2d": y}[op[3]]
        return o.fit_to_gauss(xx, y)
    if k == "use":                      # derivative of a polynomial, known exactly
        return o.matder(1) @ (o.x ** 2)


def alone(s, op):
    return ask(mk(s), s, op)


class W(World):
    def setup(self, cfg):
        self.o = {k: mk(s) for k, s in cfg["obj"].items()}

    def do(self, task, op):
        r = ask(self.o[op[1]], self.scen["setup"]["obj"][op[1]], op)
        keep = canon(r)
        if isinstance(r, np.ndarray):
            r[...] = -77.0              # the caller does what it likes with its result
        return keep

    def final(self):
        out = {}
        for k, o in self.o.items():
            s = self.scen["setup"]["obj"][k]
            for op in FIN:
                try:
                    out[k + json.dumps(op)] = ("ok", canon(ask(o, s, [op[0], k] + op[1:])))
                except Exception as e:
                    out[k + json.dumps(op)] = ("exc", type(e).__name__)
        return out


FIN = [["mat", 1], ["mat", 3], ["x"], ["ext", "in"], ["ext", "in", "cplx"], ["fit", "in"]]


class C10(Prop):
    id = "C10"
    preload = ("aerokit.common.numspectral",)
    World = W
    runs = {"quick": 4000, "thorough": 105000}
    variants = 2
    modes = (("fault", 3), ("switch", 3), ("both", 4))
    fault_kinds = ("kint", "mem", "linalg")
    snapshot_globals = False
    max_switches = 8
    budget = 60000

    def gen(self, rng):
        nt = rng.choice([1, 2, 2, 3])
        obj = {}
        n0 = rng.randint(2, 9)
        for i in range(rng.randint(1, 3)):
            obj["c%d" % i] = [n0 if rng.random() < .6 else rng.randint(2, 9), *rng.choice(DOM)]
        tasks = []
        for t in range(nt):
            ops = []
            for j in range(rng.randint(2, 6)):
                o = rng.choice(sorted(obj))
                r = rng.random()
                if r < .5:
                    ops.append(["mat", o, rng.choice([1, 1, 2, 2, 3, 4, 5, 0, -1] if rng.random() < .3 else [1, 2, 3, 4, 5])])
                elif r < .6:
                    ops.append(["cm", o, rng.choice([1, 2, 3, 4])])
                elif r < .7:
                    ops.append(["x", o])
                elif r < .75:
                    ops.append([rng.choice(["xi", "npts"]), o])
                elif r < .85:
                    ops.append(["ext", o, rng.choice(sorted(X))] + ([rng.choice(["cplx", "2d", "int", "list"])] if rng.random() < .5 else []))
                elif r < .93:
                    ops.append(["fit", o, rng.choice(sorted(X))] + ([rng.choice(["cplx", "int", "list"])] if rng.random() < .5 else []))
                else:
                    ops.append(["use", o])
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o} for j, o in enumerate(ops)])
        return {"setup": {"obj": obj}, "tasks": tasks}

    def judge(self, scen, rec, ctx):
        v = []
        fired = {f[0] for f in rec["fired"]}
        obj = scen["setup"]["obj"]
        for t in scen["tasks"]:
            for o in t:
                op, r = o["op"], rec["out"].get(o["id"])
                if r is None or (o["id"] in fired and r[0] == "exc"):
                    continue
                s = obj[op[1]]
                ref = ctx.ref(["op", s, op[0], op[2:]], alone, s, op)
                if not same_outcome(r, ref):
                    v.append((op[0], "%s on %s %s; a fresh object %s" % (op, s, outcome_str(r), outcome_str(ref))))
        for k, s in obj.items():
            for op in FIN:
                got = rec["final"][k + json.dumps(op)]
                o = [op[0], k] + op[1:]
                ref = ctx.ref(["op", s, o[0], o[2:]], alone, s, o)
                if got[0] != ref[0] or (got[0] == "ok" and not same(got[1], ref[1])):
                    v.append(("final:" + op[0], "finally %s of %s %s; a fresh object %s" % (op, s, brief(got), outcome_str(ref))))
        return v


PROP = C10()
