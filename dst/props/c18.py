"""C18 any import order, and retrying a failed import, give the same library"""
import inspect
from engine import *
import env as envmod
import catalog as cat

ALL = ["aerokit", "aerokit.aero", "aerokit.aero.CompressibleFlow", "aerokit.aero.Fanno", "aerokit.aero.Isentropic", "aerokit.aero.IterativeSolve",
       "aerokit.aero.MassFlow", "aerokit.aero.Propulsion", "aerokit.aero.Rayleigh", "aerokit.aero.ShockWave", "aerokit.aero.Supersonic",
       "aerokit.aero.ThermoKerosen", "aerokit.aero.ThermoRealGas", "aerokit.aero.degree", "aerokit.aero.model1D", "aerokit.aero.nozzle",
       "aerokit.aero.plot.defaultstyle", "aerokit.aero.plot.isentropicpolar", "aerokit.aero.plot.shockpolar", "aerokit.aero.refstate", "aerokit.aero.riemann",
       "aerokit.aero.unsteady1D", "aerokit.common._dev", "aerokit.common._ode", "aerokit.common.defaultgas", "aerokit.common.dicovar",
       "aerokit.common.extendvar", "aerokit.common.numspectral", "aerokit.engine.Cycle_Turbofan", "aerokit.engine.gasgenerator", "aerokit.engine.propu_be",
       "aerokit.engine.propu_be_double_corps", "aerokit.engine.turbofan", "aerokit.engine.turbojet", "aerokit.instance.nozzle", "aerokit.instance.riemann",
       "aerokit.instance.unsteady_inflow", "aerokit.stability", "aerokit.stability.Euler", "aerokit.stability.OrrSommerfeld", "aerokit.stability._base"]
LEGACY = {"aerokit.aero.nozzle": "aerokit.instance.nozzle", "aerokit.aero.riemann": "aerokit.instance.riemann"}
COMP_MODS = {"nozzle": ("aerokit.instance.nozzle", "aerokit.aero.nozzle"), "riemann": ("aerokit.instance.riemann", "aerokit.aero.riemann"),
             "inflow": ("aerokit.instance.unsteady_inflow",), "state": ("aerokit.aero.model1D",), "states": ("aerokit.aero.unsteady1D",),
             "cheb": ("aerokit.common.numspectral",), "euler": ("aerokit.stability.Euler",), "poiseuille": ("aerokit.stability.OrrSommerfeld",),
             "turbojet": ("aerokit.engine.turbojet",), "gasgenerator": ("aerokit.engine.gasgenerator",), "turbofan": ("aerokit.engine.turbofan",),
             "cycle_fixe": ("aerokit.engine.Cycle_Turbofan",), "cycle_calcule": ("aerokit.engine.Cycle_Turbofan",)}


def public(mod):
    """what a module offers, with the values a user can read without calling anything"""
    m = sys.modules[mod]
    out = {}
    for k, v in list(vars(m).items()):
        if k.startswith("_") or isinstance(v, type(sys)):
            continue
        if isinstance(v, (bool, int, float, str)):
            out[k] = v
        elif isinstance(v, (tuple, list, dict)) and len(repr(v)) < 4000:
            out[k] = repr(v) if "object at" not in repr(v) else "<%s>" % type(v).__name__
        elif callable(v):
            out[k] = "<%s %s.%s%s>" % (type(v).__name__, getattr(v, "__module__", ""), getattr(v, "__qualname__", ""), signature(v))
            if isinstance(v, type) and str(v.__module__).startswith("aerokit"):
                for n, x in list(vars(v).items()):
                    if not n.startswith("_") or n == "__init__":
                        out[k + "." + n] = repr(x) if isinstance(x, (bool, int, float, str)) else "<%s%s>" % (type(x).__name__, signature(x))
    return out


def signature(f):
    """names and default values of the arguments, as help() shows them"""
    try:
        s = str(inspect.signature(f))
    except (TypeError, ValueError):
        return ""
    return s if " at 0x" not in s else ""


def ref_public(mod):
    importlib.import_module(mod)
    return public(mod)


def use(op):
    if op[0] == "fn":
        return cat.call(cat.Args(), 0, op[1], op[2], op[3])
    if op[0] == "comp":
        return cat.run_comp(op[1], op[2], op[3])
    if op[0] == "cb":
        return cat.run_cb(op[1])
    if op[0] == "gas":
        import aerokit.common.defaultgas as d
        return d.gamma(), d.r_ideal()
    if op[0] == "dico":
        import aerokit.common.dicovar as d
        return sorted((k, d.dicoVar[k]) for k in d.dicoVar.keys())
    if op[0] == "ext":
        import aerokit.common.extendvar as e
        return sorted(e.expressions_from_rhopv().items())
    if op[0] == "pub":
        return public(op[1])


def ref_use(op):
    return ref_public(op[1]) if op[0] == "pub" else use(op)


class W(World):
    def do(self, task, op):
        if op[0] == "import":
            m = importlib.import_module(op[1])
            if sys.modules.get(op[1]) is not m:
                self.note("identity", "import of %s returned a module that is not the loaded one" % op[1])
            return None
        if op[0] == "from":
            ns = {}
            exec("from %s import %s as _x" % tuple(op[1].rsplit(".", 1)), ns)
            return type(ns["_x"]).__name__
        if op[0] == "pub":
            if op[1] not in sys.modules:
                importlib.import_module(op[1])
            return public(op[1])
        return use(op)

    def final(self):
        # one module object per module: a parent's attribute is the loaded module
        bad = []
        for n in ALL:
            if n in sys.modules and "." in n:
                p, c = n.rsplit(".", 1)
                if p in sys.modules and getattr(sys.modules[p], c, sys.modules[n]) is not sys.modules[n]:
                    bad.append(n)
        return bad


class C18(Prop):
    id = "C18"
    preload = ("numpy", "numpy.polynomial", "scipy.optimize", "scipy.linalg", "scipy.sparse", "scipy.integrate", "scipy.interpolate", "scipy.special",
               "matplotlib.pyplot", "math", "functools", "copy")
    World = W
    runs = {"quick": 3000, "thorough": 42000}
    variants = 2
    modes = (("fault", 6), ("both", 1))
    fault_kinds = ("kint", "kint", "mem", "epipe", "enospc")
    max_faults = 3
    rule_extra = ", or modules were imported in a random order"

    def trivial_ok(self, scen, rec):
        return True

    def place(self, rng, scen, prof):
        """most faults hit imports, each module executed by an import equally often"""
        if rng.random() < .7:
            ids = {o["id"] for t in scen["tasks"] for o in t if o["op"][0] in ("import", "from")}
            prof = {i: (l if i in ids else []) for i, l in prof.items()}
        return Prop.place(self, rng, scen, prof)

    def pick_fault(self, rng, scen, op, labels, kinds):
        files = {}
        for i, l in enumerate(labels):
            files.setdefault((l.split("|") + ["", ""])[1].split(":")[0], {}).setdefault(l, []).append(i + 1)
        f = files[rng.choice(list(files))]
        for _ in range(8):
            k, l = rng.choice(kinds), rng.choice(list(f))
            if applicable(k, l):
                return rng.choice(f[l]), k
        return Prop.pick_fault(self, rng, scen, op, labels, kinds)

    def uses(self, rng, mods):
        s = [["fn", n, rng.randrange(len(cat.F[n][2])), cat.gas_choice(rng, n)] for n in cat.NAMES if cat.F[n][0] in mods and (n not in cat.SLOW or rng.random() < .15)]
        s += [["comp", n, rng.randrange(len(cat.COMP[n][1])), rng.choice(cat.GAMMAS + [None]) if n in cat.COMP_GAS else None]
              for n in COMP_MODS if set(COMP_MODS[n]) & set(mods)]
        if "aerokit.common._ode" in mods or "aerokit.aero.IterativeSolve" in mods:
            s += [["cb", rng.choice(cat.CBS)]]
        s += [["gas"], ["dico"], ["ext"]] + [["pub", m] for m in rng.sample(sorted(mods), min(2, len(mods)))]
        return s

    def gen(self, rng):
        nt = rng.choice([1, 1, 1, 2])
        mods = rng.sample(ALL, rng.randint(1, 8))
        if rng.random() < .1:
            mods = list(ALL)
            rng.shuffle(mods)
        tasks = []
        u = self.uses(rng, mods)
        for t in range(nt):
            ops = []
            mine = mods if t == 0 else rng.sample(mods, max(1, len(mods) // 2))
            for m in mine:
                ops.append([rng.choice(["import", "import", "from"]) if "." in m else "import", m])
                if rng.random() < .3:
                    ops.append(["import", m])
                if rng.random() < .25:
                    ops.append(rng.choice(u))
            again = rng.sample(mine, min(len(mine), 4))
            ops += [["import", m] for m in again]
            for _ in range(rng.randint(2, 5)):
                ops.append(rng.choice(u))
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o} for j, o in enumerate(ops)])
        return {"setup": {}, "tasks": tasks}

    def judge(self, scen, rec, ctx):
        v = []
        fired = {f[0] for f in rec["fired"]}
        for t in scen["tasks"]:
            for o in t:
                op, r = o["op"], rec["out"].get(o["id"])
                if r is None or (r[0] == "exc" and (o["id"] in fired or r[1][0] in ("StepBudget", "Deadlock"))):
                    continue
                if op[0] in ("import", "from"):
                    if r[0] == "exc":
                        v.append(("import:" + op[1], "importing %s %s" % (op[1], outcome_str(r))))
                    continue
                ref = ctx.ref(["use", op], ref_use, op)
                rt = 1e-6 if op[0] == "comp" and op[1] == "poiseuille" else 1e-9
                if op[0] == "pub" and r[0] == "ok" and ref[0] == "ok":
                    d = [k for k in ref[1] if not same(r[1].get(k), ref[1][k])]
                    if d:
                        v.append(("public:" + op[1], "%s of %s is %s; after a plain import it is %s" % (d[0], op[1], brief(r[1].get(d[0])), brief(ref[1][d[0]]))))
                elif not same_outcome(r, ref, rt, max(1e-10, rt * 1e-2)):
                    v.append(("use:%s" % (op[1] if len(op) > 1 and isinstance(op[1], str) else op[0]),
                              "%s %s; after a plain import it %s" % (op, outcome_str(r), outcome_str(ref))))
        for n in rec["final"]:
            v.append(("identity", "the module %s is not the attribute of its package" % n))
        for k, a, b in rec["globals"]:      # imports, interrupted or not, change no setting at all
            v.append(("global:" + k, "process-wide setting %r changed from %s to %s" % (k, a, b)))
        return v


PROP = C18()
