"""C12 engine models depend on their current parameters only"""
import numpy as np
from engine import *

PAR = {"OPR": [20.0, 30.0, 25.0, "OPR3"], "Tt4": [1500.0, 1600.0, 1550.0, "Tt43"], "gam_cold": [1.4, 1.39, 1.35], "gam_hot": [1.33, 1.3, 1.4], "r_cold": [287.0, 288.0],
       "r_hot": [291.6, 287.0], "xi_inlet": [1.0, 0.97], "xi_cc": [1.0, 0.95], "eta_cc": [1.0, 0.99], "Pci": [42.8e6, 43.0e6], "etapolCHP": [1.0, 0.9],
       "etapolTHP": [1.0, 0.88], "eta_shaft": [1.0, 0.98]}
PTJ = dict(PAR, xi_nozzle=[1.0, 0.97])
PTF = dict(PTJ, bpr=[5.0, 8.0, "bpr3"], fanpower_ratio=[0.6, 0.7], etapolTBP=[1.0, 0.9], etapolfan=[1.0, 0.89])
BADV = ["x", None]
CLS = {"gg": PAR, "tj": PTJ, "tf": PTF}
FC = {"T0": [220.0, 288.0], "P0": [25000.0, 101325.0, "P03"], "M0": [0.8, 0.0, 0.4, "M03"]}
ARR = {"OPR3": [20.0, 25.0, 30.0], "Tt43": [1500.0, 1550.0, 1600.0], "bpr3": [5.0, 6.0, 8.0], "P03": [25000.0, 5e4, 1e5], "M03": [0.1, 0.5, 0.8]}
METH = {"gg": ["Wsp_cc", "Wsp_TBP_ideal", "thermal_efficiency"],
        "tj": ["Wsp_cc", "Wsp_TBP_ideal", "Wsp_kinEn", "norm_thrust", "spec_thrust", "thermal_efficiency", "propulsive_efficiency", "thermoprop_efficiency", "Sfc"]}
METH["tf"] = METH["tj"]
REQ = {"gg": ["OPR", "Tt4"], "tj": ["OPR", "Tt4"], "tf": ["OPR", "Tt4", "bpr", "fanpower_ratio"]}
DEFFC = {"T0": 1.0, "P0": 1.0, "M0": 0.0}


def val(x, arrs=None):
    if isinstance(x, str) and x in ARR:
        return arrs[x] if arrs else np.array(ARR[x])
    return x


def klass(k):
    import aerokit.engine.gasgenerator as gg
    import aerokit.engine.turbojet as tj
    import aerokit.engine.turbofan as tf
    return {"gg": gg.base, "tj": tj.turbojet_opt, "tf": tf.turbofan_adapt}[k]


def results(o, k):
    d = {a: v for a, v in vars(o).items() if not a.startswith("_")}
    for m in METH[k]:
        d[m + "()"] = getattr(o, m)()
    d["TBP2"] = o.Wsp_TBP_ideal(P19=9000.0)
    return canon(d)


def sub(got, ref):
    """every result of the new model is also a result of this one (an assigned attribute the model does not use is no result)"""
    return isinstance(got, dict) and all(x in got and same(got[x], ref[x]) for x in ref)


def fresh(k, par, fc):
    o = klass(k)(**{a: val(x) for a, x in par.items()})
    o.flight_conditions(**{a: val(x) for a, x in fc.items()})
    o.update()
    return results(o, k)


LEG = {"propu_be": ("calculs", [[6.1, 32.8, 1410.0, 1.6, 180.0], [8.0, 36.0, 1500.0, 1.5, 150.0]]),
       "propu_be_double_corps": ("calculs", [[11.0, 41.0, 1620.0, 230.0, 0.58], [6.1, 32.8, 1410.0, 180.0, 0.5]]),
       "propu_be_double_corps.opt": ("calculs_tau_optimum", [[11.0, 41.0, 1620.0, 230.0], [6.1, 32.8, 1410.0, 180.0]])}
LEGPAR = {"P0": [227.0e2, 300.0e2], "T0": [217.0, 230.0], "M0": [0.8, 0.6], "xi_e": [0.97, 1.0], "eta_c": [0.9, 0.85], "eta_f": [0.89, 0.92], "eta_comb": [0.99, 1.0],
          "xi_cc": [0.95, 0.98], "eta_m": [0.98, 1.0], "eta_turb": [0.88, 0.9], "xi_tuy": [0.97, 1.0], "P_k": [42.8e6, 43.0e6], "gamma": [1.4, 1.38],
          "gamma_": [1.33, 1.3], "r": [287.0, 289.0], "r_": [291.6, 290.0]}


def legacy(name, par, args, out=None, task=None):
    """the module-level models: their parameters are the variables of the module; results are returned and printed"""
    m = importlib.import_module("aerokit.engine." + name.split(".")[0])
    for k, x in par.items():
        setattr(m, k, x)
    out = out or sys.stdout
    n = len(out.parts)
    r = getattr(m, LEG[name][0])(*args)
    return r, "".join(s for s, w in zip(out.parts[n:], out.who[n:]) if w == task)


class W(World):
    def setup(self, cfg):
        self.arrs = {k: np.array(v) for k, v in ARR.items()}
        self.o, self.k = {}, {}

    def do(self, task, op):
        k = op[0]
        if k == "new":
            self.o[op[1]] = klass(op[2])(**{a: val(x, self.arrs) for a, x in op[3].items()})
            self.k[op[1]] = op[2]
            return None
        if k == "leg":
            return legacy(op[1], op[2], op[3], self.out, task)
        o = self.o.get(op[1])
        if o is None:
            return "absent"
        if k == "set":
            setattr(o, op[2], val(op[3], self.arrs))
            return None
        if k == "fc":
            return o.flight_conditions(**{a: val(x, self.arrs) for a, x in op[2].items()})
        if k == "upd":
            o.update()
            return None
        if k == "read":
            return results(o, self.k[op[1]])
        if k == "m":
            return getattr(o, op[2])()

    def final(self):
        out = {}
        for n, o in self.o.items():
            try:
                o.update()
                out[n] = ("ok", results(o, self.k[n]))
            except Exception as e:
                out[n] = ("exc", type(e).__name__)
        return {"end": out, "arrs": all(np.array_equal(self.arrs[k], v) for k, v in ARR.items())}


class C12(Prop):
    id = "C12"
    preload = ("aerokit.engine.turbofan", "aerokit.engine.propu_be", "aerokit.engine.propu_be_double_corps")
    World = W
    runs = {"quick": 4500, "thorough": 105000}
    variants = 2
    modes = (("fault", 4), ("switch", 2), ("both", 3))
    fault_kinds = ("kint", "mem")
    snapshot_globals = False
    max_faults = 3
    budget = 20000

    def gen(self, rng):
        nt = rng.choice([1, 1, 2, 2, 3])
        tasks = []
        for t in range(nt):
            ops, mine = [], []
            arrs = rng.random() < .3                # array-valued parameters

            def pick(pool):
                return rng.choice([x for x in pool if arrs or not isinstance(x, str)])
            for j in range(rng.randint(1, 2)):
                k = rng.choice(["gg", "tj", "tf", "tf"])
                n = "e%d%d" % (t, j)
                par = {a: pick(CLS[k][a]) for a in REQ[k]}
                for a in CLS[k]:
                    if a not in par and rng.random() < .4:
                        par[a] = pick(CLS[k][a])
                ops.append(["new", n, k, par])
                mine.append((n, k))
                if rng.random() < .8:
                    ops.append(["fc", n, {a: pick(FC[a]) for a in FC if rng.random() < .8}])
            for j in range(rng.randint(3, 10)):
                n, k = rng.choice(mine)
                r = rng.random()
                if t == 0 and r > .86:
                    n = rng.choice(sorted(LEG))
                    ops.append(["leg", n, {a: rng.choice(x) for a, x in LEGPAR.items() if rng.random() < .15}, rng.choice(LEG[n][1])])
                elif r < .3:
                    a = rng.choice(list(CLS[k]))
                    ops.append(["set", n, a, rng.choice(BADV) if rng.random() < .12 else pick(CLS[k][a])])
                elif r < .42:
                    ops.append(["fc", n, {a: pick(FC[a]) for a in FC if rng.random() < .8}])
                elif r < .7:
                    ops.append(["upd", n])
                    if rng.random() < .6:
                        ops.append(["read", n])
                elif r < .9:
                    ops.append(["read", n])
                else:
                    ops.append(["m", n, rng.choice(METH[k])])
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o} for j, o in enumerate(ops)])
        return {"setup": {}, "tasks": tasks}

    def judge(self, scen, rec, ctx):
        v = []
        fired = {f[0] for f in rec["fired"]}
        if not rec["final"]["arrs"]:
            v.append(("arrays", "the caller's parameter arrays were modified"))

        def ref(m):
            return ctx.ref(["eng", m[0], m[1], m[2]], fresh, m[0], m[1], m[2])
        for t in scen["tasks"]:
            mod, upto, unk, leg = {}, {}, {}, {}
            for o in t:
                op, r = o["op"], rec["out"].get(o["id"])
                if r is None:
                    continue
                n = op[1]
                if op[0] == "leg":
                    par = leg.setdefault(n.split(".")[0], {})
                    par.update(op[2])
                    if r[0] == "exc" and o["id"] in fired:
                        continue
                    e = ctx.ref(["leg", n, par, op[3]], legacy, n, dict(par), op[3])
                    if not same_outcome(r, e):
                        v.append(("legacy:" + n, "%s with %s %s; in a fresh process it %s" % (op[3], par, outcome_str(r), outcome_str(e))))
                    continue
                if op[0] == "new":
                    if r[0] == "ok":
                        mod[n], upto[n], unk[n] = (op[2], dict(op[3]), None), False, set()
                    elif o["id"] not in fired:
                        v.append(("new", "%s %s" % (op, outcome_str(r))))
                    continue
                if n not in mod:
                    continue
                k, par, fc = mod[n]
                if op[0] == "set":
                    upto[n] = False
                    if r[0] == "ok":
                        mod[n] = (k, dict(par, **{op[2]: op[3]}), fc)
                        unk[n] = unk[n] - {op[2]}
                    else:
                        unk[n] = unk[n] | {op[2]}
                elif op[0] == "fc":
                    upto[n] = False
                    if r[0] == "ok":
                        mod[n] = (k, par, dict(DEFFC, **op[2]))
                        unk[n] = unk[n] - {"fc"}
                    else:
                        unk[n] = unk[n] | {"fc"}
                        if o["id"] not in fired:
                            v.append(("fc", "%s %s" % (op, outcome_str(r))))
                elif op[0] == "upd":
                    upto[n] = r[0] == "ok"
                    if fc is None or unk[n]:
                        continue
                    e = ref(mod[n])
                    if r[0] == "ok" and e[0] == "exc":
                        upto[n] = False           # a new model fails in a result, not in update
                    elif r[0] == "exc" and o["id"] not in fired and e[0] == "ok":
                        v.append(("update", "%s on %s %s, a new model does not" % (op, mod[n], outcome_str(r))))
                elif op[0] in ("read", "m"):
                    if not upto[n] or fc is None or unk[n]:
                        continue
                    e = ref(mod[n])
                    if r[0] == "exc":
                        if o["id"] not in fired:
                            v.append(("read", "%s on %s %s, a new model does not" % (op, mod[n], outcome_str(r))))
                        continue
                    a = e[1] if op[0] == "read" else e[1][op[2] + "()"]
                    if not (sub(r[1], a) if op[0] == "read" else same(r[1], a)):
                        bad = [x for x in a if x not in r[1] or not same(r[1][x], a[x])] if op[0] == "read" else [op[2]]
                        v.append(("result:" + k, "%s of %s differs from a new model with the same parameters in %s" % (op, mod[n], bad or "extra values")))
            for n, m in mod.items():
                if m[2] is None or unk[n] or n not in rec["final"]["end"]:
                    continue
                got, e = rec["final"]["end"][n], ref(m)
                if got[0] != e[0]:
                    v.append(("final:" + m[0], "updating %s finally %s, a new model %s" % (m, brief(got), outcome_str(e))))
                elif got[0] == "ok" and not sub(got[1], e[1]):
                    bad = [x for x in e[1] if x not in got[1] or not same(got[1][x], e[1][x])]
                    v.append(("final:" + m[0], "updated finally, %s differs from a new model with the same parameters in %s" % (m, bad or "extra values")))
        return v


PROP = C12()
