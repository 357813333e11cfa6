"""C16 the default gas governs every call that does not name one"""
import inspect, itertools
import numpy as np
from engine import *
import catalog as cat

G = [1.4, 1.3, 1.25, 1.67]
R = [287.1, 300.0, 518.0]
SITES = [n for n in cat.NAMES if cat.F[n][3] in ("kw", "lit", "ign", "none-kw", "none-mix") and n not in cat.SLOW]
COMPS = {"nozzle": ["aerokit.instance.nozzle"], "riemann": ["aerokit.aero.unsteady1D", "aerokit.instance.riemann", "aerokit.aero.model1D"],
         "inflow": ["aerokit.aero.unsteady1D", "aerokit.instance.unsteady_inflow", "aerokit.aero.model1D"], "state": ["aerokit.aero.model1D"],
         "states": ["aerokit.aero.model1D", "aerokit.aero.unsteady1D"], "euler": ["aerokit.stability.Euler", "aerokit.aero.model1D"],
         "turbojet": ["aerokit.engine.turbojet"], "gasgenerator": ["aerokit.engine.gasgenerator"], "turbofan": ["aerokit.engine.turbofan"]}
ENGINES = {"turbojet": "turbojet_opt", "gasgenerator": "base", "turbofan": "turbofan_adapt"}
PLOTS = {"shockpolar.plot_theta_sigma": "aerokit.aero.plot.shockpolar", "shockpolar.plot_theta_pressure": "aerokit.aero.plot.shockpolar",
         "isentropicpolar.plot_theta_pressure": "aerokit.aero.plot.isentropicpolar"}
MODS = sorted({cat.F[n][0] for n in SITES} | {m for l in COMPS.values() for m in l} | set(PLOTS.values()))


def plot(name, i, kw):
    """data of the curves a plot function draws on a new figure"""
    f = getattr(importlib.import_module(PLOTS[name]), name.split(".")[1])
    import matplotlib.pyplot as plt
    fig = plt.figure()
    try:
        f(2.0 + i, *(([0.0, 8.0],) if name[0] == "i" else ()), npts=6, **kw)
        return [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)) for l in fig.axes[0].lines]
    finally:
        plt.close(fig)


def engine(name, v, kw):
    mod = importlib.import_module("aerokit.engine." + name)
    e = getattr(mod, ENGINES[name])(*v, xi_cc=0.95, etapolCHP=0.9, etapolTHP=0.88, **kw)
    e.flight_conditions(T0=220.0, P0=25000.0, M0=0.8)
    e.update()
    return cat.pub(e)


def do_site(op, g=None, r=None):
    """one call that names no gas; with g, r: the same call that names this one"""
    if op[0] == "plot":
        return plot(op[1], op[2], {} if g is None else {"gamma": g})
    if op[0] == "comp":
        f, var = cat.COMP[op[1]]
        if op[1] in ENGINES:
            return engine(op[1], var[op[2]], {} if g is None else dict(gam_cold=g, gam_hot=g, r_cold=r, r_hot=r))
        return f(var[op[2]], g)
    f = cat.fn(op[1])
    a = [cat.Args().get(0, x) for x in cat.F[op[1]][2][op[2]]]
    kw = {}
    if g is not None:
        par = inspect.signature(f).parameters
        kw = {k: x for k, x in (("gamma", g), ("r", r)) if k in par}
    return f(*a, **kw)


def ref_site(op, g, r):
    import aerokit.common.defaultgas as d
    if op[1] == "Rayleigh.maxTiratio_Mach":      # by its definition: it does not forward the gas it is given either
        import aerokit.aero.Rayleigh as ray
        return 1.0 / ray.Ti_Ticri(cat.Args().get(0, cat.F[op[1]][2][op[2]][0]), gamma=g)
    d.set_gamma(g)
    d.set_r_ideal(r)
    if op[0] == "fn" and cat.F[op[1]][3].startswith("none"):      # can not be given a gas: its steps can
        return ref_steps(op, g, g, g, g, g)
    return do_site(op, g, r)


STEPS = ("aerokit.aero.Isentropic", "aerokit.aero.MassFlow", "aerokit.aero.ShockWave", "aerokit.instance.nozzle")


def ref_steps(op, gi, gm, gs, gn, now):
    """the functions of the nozzle module when each step uses the default gas of the moment its own module was loaded"""
    from aerokit.aero import Isentropic as Is, MassFlow as mf, ShockWave as sw
    a = [cat.Args().get(0, x) for x in cat.F[op[1]][2][op[2]]]
    n = op[1].split(".")[1]
    if n == "NPR_choked_subsonic":
        return Is.PtPs_Mach(mf.MachSub_Sigma(a[0], gamma=gm), gamma=gi)
    if n == "NPR_choked_supersonic":
        return Is.PtPs_Mach(mf.MachSup_Sigma(a[0], gamma=gm), gamma=gi)
    if n == "NPR_shock_at_exit":
        m = mf.MachSup_Sigma(a[0], gamma=gm)
        return Is.PtPs_Mach(sw.downstream_Mn(m, gamma=gs), gamma=gi) / sw.Pi_ratio(m, gamma=gs)
    ac, npr = a
    msup, msub = mf.MachSup_Sigma(ac, gamma=gn), mf.MachSub_Sigma(ac, gamma=gn)
    npr0, npr1 = Is.PtPs_Mach(msub, gamma=gn), Is.PtPs_Mach(msup, gamma=gn)
    nprsw = Is.PtPs_Mach(sw.downstream_Mn(msup, gamma=gn), gamma=gn) / sw.Pi_ratio(msup, gamma=gn)
    if npr < npr0 or (npr > npr1 and n[:2] == "Ma"):
        return Is.Mach_PtPs(npr, gamma=gi)
    if npr > nprsw:
        return msup if n[:2] == "Ms" else sw.downstreamMach_Mach_ShockPsratio(msup, npr1 / npr, gamma=gs)
    k = npr / ac / ((now + 1) / 2) ** ((now + 1) / 2 / (now - 1))
    return np.sqrt((np.sqrt(1 + 2 * (now - 1) * k * k) - 1) / (now - 1))


class W(World):
    def setup(self, cfg):
        self.imps = []
        self.known = self.loaded()

    def loaded(self):
        return {m for m in sys.modules if m.startswith("aerokit.") and not (m + ".").startswith("aerokit.common.")}

    def do(self, task, op):
        me = self.sim.tasks[task].op
        try:
            k = op[0]
            if k == "import":
                importlib.import_module(op[1])
                return None
            if k in ("fn", "comp", "plot"):
                return do_site(op)
            import aerokit.common.defaultgas as d
            if k == "gas":
                return d.set_gamma(op[1])
            if k == "r":
                return d.set_r_ideal(op[1])
            if k == "save":
                return d.save_default()
            if k == "restore":
                return d.restore_default()
            return [d.gamma(), d.r_ideal()]
        finally:
            now = self.loaded()
            if now - self.known:
                self.imps.append([me, sorted(now - self.known)])
                self.known = now

    def final(self):
        return json.dumps(self.imps)


class C16(Prop):
    id = "C16"
    preload = ("numpy", "numpy.polynomial", "scipy.optimize", "scipy.linalg", "scipy.sparse", "scipy.integrate", "scipy.interpolate", "scipy.special",
               "matplotlib.pyplot", "matplotlib.backends.backend_agg")
    World = W
    runs = {"quick": 3200, "thorough": 60000}
    modes = (("fault", 3), ("switch", 3), ("both", 2))
    fault_kinds = ("kint", "mem", "nocv")
    snapshot_globals = False
    rule_extra = ", or the default gas was set before or after an import"

    @property
    def directed(self):
        if getattr(self, "_d", None) is None:
            calls = [["fn", n, i] for n in SITES for i in range(len(cat.F[n][2]))]
            calls += [["comp", n, i] for n in COMPS for i in range(len(cat.COMP[n][1]))] + [["plot", n, 0] for n in PLOTS]
            imp = [["import", m] for m in MODS]

            def sc(ops):
                return {"setup": {}, "tasks": [[{"id": "d%d" % i, "op": o} for i, o in enumerate(ops)]], "faults": []}
            self._d = (sc([["gas", 1.3], ["r", 300.0]] + imp + [["gas", 1.25], ["r", 518.0]] + calls),
                       sc([["gas", 1.3], ["r", 300.0]] + imp + calls),
                       sc([["gas", 1.3], ["r", 300.0]] + calls),
                       sc(imp + [["gas", 1.3], ["r", 300.0]] + calls),
                       sc(calls))
        return self._d

    def trivial_ok(self, scen, rec):
        return True

    def gen(self, rng):
        nt = rng.choice([1, 1, 2])
        mods = rng.sample(MODS, rng.randint(1, 4))
        sites = [["fn", n] for n in SITES if cat.F[n][0] in mods] + [["comp", n] for n in COMPS if COMPS[n][0] in mods] or [["fn", n] for n in SITES]
        tasks = []
        for t in range(nt):
            ops = []
            for j in range(rng.randint(2, 8)):
                r = rng.random()
                if r < .3 and t == 0:
                    ops.append(["gas", rng.choice(G)])
                elif r < .38 and t == 0:
                    ops.append(["r", rng.choice(R)])
                elif r < .44 and t == 0:
                    ops.append([rng.choice(["save", "save", "restore"])])
                elif r < .6:
                    ops.append(["import", rng.choice(mods)])
                elif r < .65:
                    ops.append(["get"])
                elif t == 0 and r < .68 and set(PLOTS.values()) & set(mods):     # pyplot belongs to one caller
                    ops.append(["plot", rng.choice([n for n in sorted(PLOTS) if PLOTS[n] in mods]), rng.randrange(2)])
                else:
                    s = rng.choice(sites)
                    n = len(cat.F[s[1]][2]) if s[0] == "fn" else len(cat.COMP[s[1]][1])
                    ops.append(s + [rng.randrange(n)])
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o} for j, o in enumerate(ops)])
        return {"setup": {}, "tasks": tasks}

    def judge(self, scen, rec, ctx):
        v = []
        fired = {f[0] for f in rec["fired"]}
        ops = {o["id"]: o["op"] for t in scen["tasks"] for o in t}
        out = {i: rec["out"][i] for i in ops if i in rec["out"]}
        # possible default gases (gamma, r) and saved ones, as time goes by; task 0 alone changes them
        cur, sav = {(1.4, 287.1)}, {None}
        line = [(0, frozenset(cur))]
        for i in sorted((o["id"] for o in scen["tasks"][0] if o["id"] in out), key=lambda i: out[i][3]):
            op, r = ops[i], out[i]
            if op[0] not in ("gas", "r", "save", "restore"):
                continue
            ncur, nsav = cur, sav
            if op[0] == "gas":
                ncur = {(op[1], c[1]) for c in cur}
            elif op[0] == "r":
                ncur = {(c[0], op[1]) for c in cur}
            elif op[0] == "save":
                nsav = set(cur)
            else:
                ncur = {s for s in sav if s} or cur
                if r[0] == "exc" and i not in fired:
                    ncur = cur
            if i in fired:
                ncur = ncur | cur | {(a[0], b[1]) for a in ncur | cur for b in ncur | cur}
                nsav = nsav | sav
            mid = cur | ncur | {(a[0], b[1]) for a in ncur | cur for b in ncur | cur}
            line.append((r[3], frozenset(mid)))
            line.append((r[4], frozenset(ncur)))
            cur, sav = ncur, nsav

        def during(i):
            inv, ret = out[i][3], out[i][4]
            s, last = set(), line[0][1]
            for t, g in line:
                if t <= inv:
                    last = g
                elif t < ret:
                    s |= g
            return s | last
        imp = {}
        for i, ms in json.loads(rec["final"]):
            for m in ms:
                imp.setdefault(m, []).append(i)
        for i, op in ops.items():
            r = out.get(i)
            if r is None or (r[0] == "exc" and (i in fired or r[1][0] in ("StepBudget", "Deadlock"))):
                continue
            now = during(i)
            if op[0] == "get":
                if r[0] != "ok" or not any(same(r[1], canon(list(g))) for g in now):
                    v.append(("default", "the default gas reads %s, it was set to %s" % (outcome_str(r), sorted(now))))
                continue
            if op[0] == "import" and r[0] == "exc":
                v.append(("import:" + op[1], "importing %s %s" % (op[1], outcome_str(r))))
                continue
            if op[0] not in ("fn", "comp", "plot"):
                if r[0] == "exc" and not (op[0] == "restore" and None in sav | {None}):
                    v.append(("set:" + op[0], "%s %s" % (op, outcome_str(r))))
                continue
            f = lambda g: ctx.ref(["site", op, g], ref_site, op, g[0], g[1])
            if any(same_outcome(r, f(g)) for g in sorted(now)):
                continue
            loaded = set()
            for j in sorted({j for l in imp.values() for j in l if out[j][3] <= r[4]}):
                loaded |= during(j)
            how = "other"
            if any(same_outcome(r, f(g)) for g in sorted(loaded)):
                how = "late"
            if how == "other" and op[0] == "fn" and cat.F[op[1]][3].startswith("none"):
                gs = [sorted({g[0] for j in imp.get(m, []) for g in during(j)}) for m in STEPS] + [sorted({g[0] for g in now})]
                if any(same_outcome(r, ctx.ref(["steps", op, c], ref_steps, op, *c)) for c in itertools.product(*gs)):
                    how = "late"
            if how == "other" and (same_outcome(r, f((1.4, 287.1))) or same_outcome(r, f((1.4, sorted(now)[0][1])))):
                how = "literal"
            v.append(("%s:%s" % (how, op[1]), "%s names no gas and the default one is %s: it %s instead of %s; %s" %
                      (op, sorted(now), outcome_str(r), outcome_str(f(sorted(now)[0])),
                       {"late": "it uses the default gas at the time its module was loaded (%s)" % sorted(loaded), "literal": "it uses gamma=1.4, r=287.1",
                        "other": "no known gas gives this"}[how])))
        return v


PROP = C16()
