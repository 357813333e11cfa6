"""C11 staged turbofan cycles resume and converge whatever the order of stages"""
import numpy as np
from engine import *

PAR = [[6.1, 32.8, 1410.0, 180.0], [11.0, 41.0, 1620.0, 230.0], [5.0, 30.0, 1500.0, 100.0], [8.0, 36.0, 1550.0, 150.0]]
FIX, CAL = [1.6, 1.5, 1.7], [0.58, 0.5, 0.4]
GAS = [[1.4, 287.0], [1.38, 289.0]]
FUEL = [[1.33, 291.6, 42800.e3], [1.3, 290.0, 43000.e3]]
COND = [None, [300.0e2, 230.0, 0.6]]
CORE = ["InitialValues", "stage_2", "stage_3", "stage_4", "calculs_1_to_4", "show_attributes"]
STAGES = {"base": (CORE, []),
          "fixe": (CORE + ["stage_5", "stage_9", "calculs_5_to_9", "perfo", "show_perfo"], ["stage_13", "stage_19", "perfo", "calculs_5_to_9"]),
          "calc": (CORE + ["stage_4_etoile", "stage_5", "stage_9", "calculs_5_to_9", "perfo", "show_perfo"], ["stage_13", "stage_19", "perfo", "calculs_5_to_9"])}
PERF = ("F", "F_spe", "mk_spe", "eta_th", "eta_prop", "eta")


def missing(kind, op, c, f):
    """the stage's prerequisites are missing: c, f = last stages reached by the core and the fan"""
    if op in ("stage_2", "stage_3", "stage_4"):
        return c < {"stage_2": 1, "stage_3": 2, "stage_4": 3}[op]
    if op == "stage_19":
        return f < 13
    if op in ("perfo", "show_perfo"):
        return c < 9 or f < 19
    if kind == "fixe":
        return {"stage_13": c < 2, "stage_5": c < 4 or f < 13, "stage_9": c < 5}.get(op, False)
    if kind == "calc":
        return {"stage_4_etoile": c < 4, "stage_5": c < 5, "stage_9": c < 6, "stage_13": c < 6}.get(op, False)
    return False


def mk(s):
    import aerokit.engine.Cycle_Turbofan as ct
    kind, p, x, g, fu, cond = s[:6]
    late = len(s) > 6 and s[6]
    a = PAR[p] + [ct.Gaz(*GAS[g]), ct.Gaz(*FUEL[fu])]
    if kind == "base":
        o = ct.cycle_1_to_4(*a)
        if cond:
            o.P0, o.T0, o.M0 = cond
        return o
    if late:                    # a user's subclass which leaves every stage to its caller
        base = ct.cycle_taux_fan_fixe if kind == "fixe" else ct.cycle_taux_fan_calcule

        class Late(base):
            made = False

            def __init__(self, *a, **k):
                base.__init__(self, *a, **k)
                self.made = True

            def calculs_1_to_4(self):
                if self.made:
                    base.calculs_1_to_4(self)
        return Late(*a, FIX[x]) if kind == "fixe" else Late(*a, taux_meca=CAL[x])
    return ct.cycle_taux_fan_fixe(*a, FIX[x]) if kind == "fixe" else ct.cycle_taux_fan_calcule(*a, taux_meca=CAL[x])


def pubnum(o):
    d = {k: v for k, v in vars(o).items() if not k.startswith("_")}
    d.pop("made", None)
    return {k: np.array(v) for k, v in d.items() if isinstance(v, (int, float, np.ndarray, np.number)) and not k.startswith("current_stage")}


def complete(o, kind):
    o.calculs_1_to_4()
    if kind != "base":
        o.calculs_5_to_9()


def onego(s):
    o = mk(s[:6])
    complete(o, s[0])
    d = pubnum(o)
    out = SimStdout()
    keep, sys.stdout = sys.stdout, out
    try:
        if s[0] != "base":
            o.show_perfo()
    finally:
        sys.stdout = keep
    return {"num": d, "show": out.text(), "perfo": None if s[0] == "base" else o.perfo()}


class W(World):
    def setup(self, cfg):
        self.o = {k: mk(s) for k, s in cfg["obj"].items()}
        self.seen = []

    def do(self, task, op):
        if op[0] == "new":
            self.o[op[1]] = mk(self.scen["setup"]["new"][op[1]])
            return None
        o = self.o.get(op[1])
        if o is None:
            return "absent"
        s = self.scen["setup"]["obj"].get(op[1]) or self.scen["setup"]["new"][op[1]]
        c, f = getattr(o, "current_stage_corps", None), getattr(o, "current_stage_fan", 0)
        before, ns = dict(vars(o)), self.sim.nswitch
        try:
            r = getattr(o, op[0])()
        except AttributeError:
            if op[0] != "show_perfo" or "eta" in before:
                raise
            r = None                          # nothing to show yet
        finally:
            if c is not None and missing(s[0], op[0], c, f) and ns == self.sim.nswitch:
                self.probe("stage without prerequisites")
                if any(k not in before or before[k] is not v for k, v in vars(o).items() if not k.startswith("_")):
                    self.note("prerequisites:" + op[0], "%s of %s with core at %s and fan at %s changed %s" %
                              (op[0], s[0], c, f, [k for k, v in vars(o).items() if k not in before or before[k] is not v]))
            self.seen.append((op[1], canon(pubnum(o))))
        return r

    def final(self):
        out = {}
        for k, o in self.o.items():
            s = self.scen["setup"]["obj"].get(k) or self.scen["setup"]["new"][k]
            try:
                complete(o, s[0])
                d = pubnum(o)
                q = SimStdout()
                keep, sys.stdout = sys.stdout, q
                try:
                    if s[0] != "base":
                        o.show_perfo()
                finally:
                    sys.stdout = keep
                out[k] = ("ok", {"num": d, "show": q.text(), "perfo": None if s[0] == "base" else o.perfo()})
            except Exception as e:
                out[k] = ("exc", repr(e)[:200])
        return {"end": out, "seen": self.seen}


class C11(Prop):
    id = "C11"
    preload = ("aerokit.engine.Cycle_Turbofan",)
    World = W
    runs = {"quick": 4000, "thorough": 105000}
    variants = 2
    modes = (("fault", 4), ("switch", 3), ("both", 4))
    fault_kinds = ("kint", "mem", "epipe", "enospc")
    snapshot_globals = False
    max_switches = 8
    max_faults = 3
    budget = 20000

    def gen(self, rng):
        obj, new = {}, {}

        def spec():
            k = rng.choice(["fixe", "calc", "fixe", "calc", "base"])
            return [k, rng.randrange(len(PAR)), rng.randrange(3), rng.randrange(2), rng.randrange(2), rng.choice(COND) if k == "base" else None, k != "base" and rng.random() < .4]
        for i in range(rng.randint(1, 2)):
            obj["c%d" % i] = spec()
        tasks = []
        nt = rng.choice([1, 2, 2])
        style = [rng.choice(["core", "fan", "any", "order"]) for _ in range(nt)]
        if nt == 2 and rng.random() < .5:
            style = ["core", "fan"]
        for t in range(nt):
            ops = []
            if rng.random() < .3:
                n = "n%d" % t
                new[n] = spec()
                ops.append(["new", n])
            names = list(obj) + [x for x in new if x == "n%d" % t]
            main = rng.choice(names)
            for j in range(rng.randint(2, 12)):
                n = main if rng.random() < .8 else rng.choice(names)
                core, fan = STAGES[(obj.get(n) or new[n])[0]]
                if style[t] == "core" or not fan:
                    ops.append([rng.choice(core), n])
                elif style[t] == "fan":
                    ops.append([rng.choice(fan), n])
                else:
                    ops.append([rng.choice(core + fan), n])
            if style[t] == "order" and rng.random() < .7:        # nearly in order, some stages missing
                core, fan = STAGES[(obj.get(main) or new[main])[0]]
                ops += [[s, main] for s in core + fan if rng.random() < .8 and not s.startswith("calculs")]
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o} for j, o in enumerate(ops)])
        return {"setup": {"obj": obj, "new": new}, "tasks": tasks}

    def judge(self, scen, rec, ctx):
        v = []
        fired = {f[0] for f in rec["fired"]}
        spec = dict(scen["setup"]["obj"])
        spec.update(scen["setup"]["new"])

        def ref(n):
            return ctx.ref(["go", spec[n]], onego, spec[n])
        for t in scen["tasks"]:
            for o in t:
                op, r = o["op"], rec["out"].get(o["id"])
                if r is None:
                    continue
                if r[0] == "exc":
                    if o["id"] not in fired:
                        v.append(("raises:" + op[0], "%s of %s %s" % (op[0], spec[op[1]], outcome_str(r))))
                elif op[0] == "perfo" and r[1] is not None and not (isinstance(r[1], str)):
                    if not same(r[1], ref(op[1])[1]["perfo"]):
                        v.append(("perfo", "perfo of %s %s, a cycle computed in one go gives %s" % (spec[op[1]], outcome_str(r), ref(op[1])[1]["perfo"])))
        for n, d in rec["final"]["seen"]:
            a = ref(n)[1]["num"]
            for k, x in d.items():
                if k in a and not same(x, a[k]):
                    v.append(("value:" + k, "%s of %s is %s during the computation, in one go it is %s" % (k, spec[n], brief(x), brief(a[k]))))
        for n, got in rec["final"]["end"].items():
            a = ref(n)[1]
            if got[0] == "exc":
                v.append(("end", "completing %s raises %s" % (spec[n], got[1])))
                continue
            if not same(got[1]["num"], a["num"]):
                bad = [k for k in a["num"] if k not in got[1]["num"] or not same(got[1]["num"][k], a["num"][k])]
                v.append(("end:" + ("perfo" if set(bad) & set(PERF) else "values"), "completed %s differs from a cycle computed in one go in %s" % (spec[n], bad or "extra values")))
            elif got[1]["show"] != a["show"] or not same(got[1]["perfo"], a["perfo"]):
                v.append(("end:show", "completed %s shows another performance" % (spec[n],)))
        return v


PROP = C11()
