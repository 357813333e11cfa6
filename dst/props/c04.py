"""C04 an explicitly named gas is the only gas that matters"""
import importlib
from engine import *
import catalog as cat
from catworld import *

RS = [287.1, 300.0, 259.8]
NOVEL = [n for n in cat.NAMES if cat.F[n][3] in ("kw", "lit") and "Velocity" not in n]
KWN = [n for n in cat.KW if "Velocity" not in n and n not in cat.SLOW]
EQC = ["riemann", "inflow", "state", "states", "euler"]


def vel(M, T, r, g):
    import aerokit.aero.Isentropic as Is
    return Is.Velocity_MachTt(M, T, r=r, gamma=g)


def mflow(M, r, g):
    import aerokit.aero.MassFlow as mf
    return mf.WeightMassFlow(M, r=r, gamma=g), mf.Mach_Sigma(1.5, M, gamma=g)


def engine(kind, v, r, g, flight=True):
    import aerokit.engine.turbofan as tf
    import aerokit.engine.turbojet as tj
    import aerokit.engine.gasgenerator as gg
    kw = {} if g is None else {"gam_cold": g, "gam_hot": g - 0.04, "r_cold": r, "r_hot": r + 3.0}
    if g == "same":
        kw = {}
    cls = {"gg": gg.base, "tj": tj.turbojet_opt, "tf": tf.turbofan_adapt}[kind]
    e = cls(*(v if kind == "tf" else v[:2]), xi_cc=0.95, etapolCHP=0.9, etapolTHP=0.88, **kw)
    e.flight_conditions(T0=220.0, P0=25000.0, M0=0.8)
    e.update()
    return cat.pub(e)


def engine_same(kind, v, r, g):
    """one gas for everything: named (g given) or left to the default (g None)"""
    import aerokit.engine.turbofan as tf
    import aerokit.engine.turbojet as tj
    import aerokit.engine.gasgenerator as gg
    kw = {} if g is None else {"gam_cold": g, "gam_hot": g, "r_cold": r, "r_hot": r}
    cls = {"gg": gg.base, "tj": tj.turbojet_opt, "tf": tf.turbofan_adapt}[kind]
    e = cls(*(v if kind == "tf" else v[:2]), xi_cc=0.95, etapolCHP=0.9, etapolTHP=0.88, **kw)
    e.flight_conditions(T0=220.0, P0=25000.0, M0=0.8)
    e.update()
    return cat.pub(e)


def nlimits(v, g):
    """limits of the regimes as the nozzle object (named gas) or the module functions (default gas) see them"""
    import aerokit.instance.nozzle as nz
    if g is None:
        return nz.NPR_choked_subsonic(v), nz.NPR_shock_at_exit(v), nz.NPR_choked_supersonic(v)
    x, s = cat.nozzle_geom(v)
    z = nz.nozzle(x, s, AsoAc=v, gamma=g)
    return z.NPR0, z.NPRsw, z.NPR1


def vel_default(M, T):
    import aerokit.aero.Isentropic as Is
    return Is.Velocity_MachTt(M, T)


def alone4(op, pre=None):
    if pre:
        import aerokit.common.defaultgas as d
        d.set_gamma(pre[0])
        d.set_r_ideal(pre[1])
    k = op[0]
    if k == "vel":
        return vel(*op[1:])
    if k == "mflow":
        return mflow(*op[1:])
    if k == "eng":
        return engine(*op[1:])
    if k == "engs":
        return engine_same(*op[1:])
    if k == "eng4":
        return engine4(*op[1:])
    if k == "nlim":
        return nlimits(*op[1:])
    if k == "veld":
        return vel_default(*op[1:])
    if k == "mk":
        return [read(make(op[1]), op[1], r) for r in sorted(OBJ[op[1][0]][2])]
    return alone(op)


def engine4(kind, v, gc, gh, rc, rh):
    """cold and hot gases named one by one"""
    import aerokit.engine.turbofan as tf
    import aerokit.engine.turbojet as tj
    import aerokit.engine.gasgenerator as gg
    cls = {"gg": gg.base, "tj": tj.turbojet_opt, "tf": tf.turbofan_adapt}[kind]
    e = cls(*(v if kind == "tf" else v[:2]), xi_cc=0.95, etapolCHP=0.9, etapolTHP=0.88, gam_cold=gc, gam_hot=gh, r_cold=rc, r_hot=rh)
    e.flight_conditions(T0=220.0, P0=25000.0, M0=0.8)
    e.update()
    return cat.pub(e)


V = [[20.0, 1500.0, 5.0, 0.6], [30.0, 1600.0, 8.0, 0.7]]


class W(World):
    def setup(self, cfg):
        self.args = cat.Args()
        if cfg.get("pre"):
            import aerokit.common.defaultgas as d
            d.set_gamma(cfg["pre"][0])
            d.set_r_ideal(cfg["pre"][1])
        self.obj = {}

    def load(self, op):
        s = self.sim
        s.active = False
        try:
            if op[0] == "fn":
                importlib.import_module(cat.F[op[1]][0])
            elif op[0] == "load":
                importlib.import_module(op[1])
            elif op[0] in ("eng", "engs", "eng4"):
                importlib.import_module("aerokit.engine.turbofan")
            elif op[0] in ("vel", "veld"):
                importlib.import_module("aerokit.aero.Isentropic")
            elif op[0] == "mflow":
                importlib.import_module("aerokit.aero.MassFlow")
            elif op[0] == "nlim":
                importlib.import_module("aerokit.instance.nozzle")
            elif op[0] == "comp":
                self.loadcomp(op[1])
            elif op[0] in ("new", "mk"):
                self.loadcomp(op[2][0] if op[0] == "new" else op[1][0])
        finally:
            s.active = True

    def loadcomp(self, k):
        for m in {"nozzle": ["instance.nozzle"], "riemann": ["instance.riemann"], "inflow": ["instance.unsteady_inflow"],
                  "state": ["aero.unsteady1D"], "states": ["aero.unsteady1D"], "euler": ["stability.Euler"],
                  "turbofan": ["engine.turbofan"]}[k]:
            importlib.import_module("aerokit." + m)

    def do(self, task, op):
        self.load(op)
        if op[0] == "load":
            return None
        if op[0] == "gas":
            import aerokit.common.defaultgas as d
            return getattr(d, op[1])(*op[2:])
        if op[0] == "new":
            self.obj[(task, op[1])] = (make(op[2]), op[2])
            return None
        if op[0] == "rd":
            o, sp = self.obj[(task, op[1])]
            return read(o, sp, op[2])
        if op[0] == "fn":
            return cat.call(self.args, task, op[1], op[2], op[3])
        if op[0] == "comp":
            return cat.run_comp(op[1], op[2], op[3])
        return alone4(op)


class C04(Prop):
    id = "C04"
    preload = ()
    World = W
    runs = {"quick": 4000, "thorough": 80000}
    modes = (("switch", 3), ("both", 1))
    fault_kinds = ("kint", "mem", "nocv")
    snapshot_globals = False
    rule_extra = " or the default gas was changed before loading or between calls"
    OBJK = ["nozzle", "riemann", "inflow", "state", "euler"]

    def trivial_ok(self, scen, rec):
        return True

    def eop(self, rng):
        r = rng.random()
        if r < .5:
            while True:
                n = rng.choice(NOVEL)
                if n not in cat.SLOW or rng.random() < .15:
                    break
            return ["fn", n, rng.randrange(len(cat.F[n][2])), rng.choice(cat.GAMMAS)]
        if r < .75:
            n = rng.choice(["nozzle", "riemann", "inflow", "state", "states", "euler"])
            return ["comp", n, rng.randrange(len(cat.COMP[n][1])), rng.choice(cat.GAMMAS)]
        if r < .85:
            return ["vel", rng.choice([0.5, 1.5]), 300.0, rng.choice(RS), rng.choice(cat.GAMMAS)]
        if r < .9:
            return ["mflow", rng.choice([0.5, 1.5]), rng.choice(RS), rng.choice(cat.GAMMAS)]
        if r < .95:
            g, rr = cat.GAMMAS + [1.25], RS + [287.1]      # any of them may be what the default is, or once was
            return ["eng4", rng.choice(["gg", "tj", "tf"]), rng.choice(V), rng.choice(g), rng.choice(g), rng.choice(rr), rng.choice(rr)]
        return ["eng", rng.choice(["gg", "tj", "tf"]), rng.choice(V), rng.choice(RS), rng.choice(cat.GAMMAS)]

    def gasop(self, rng):
        return rng.choice([["gas", "set_gamma", rng.choice(cat.GAMMAS + [1.25, 1.1])], ["gas", "set_r_ideal", rng.choice(RS)],
                           ["gas", "save_default"], ["gas", "restore_default"], ["gas", "set_gamma", rng.choice([1.25, 1.1, 1.35])]])

    def gen(self, rng):
        if rng.random() < .3:          # equivalence with making it the default gas before loading
            g, r = rng.choice(cat.GAMMAS + [1.25]), rng.choice(RS)
            ops = []
            for j in range(rng.randint(2, 5)):
                x = rng.random()
                if x < .6:
                    n = rng.choice(KWN)
                    o = ["fn", n, rng.randrange(len(cat.F[n][2])), None]
                elif x < .78:
                    n = rng.choice(EQC)
                    o = ["comp", n, rng.randrange(len(cat.COMP[n][1])), None]
                elif x < .86:
                    o = ["veld", rng.choice([0.5, 1.5]), 300.0]
                elif x < .92:
                    o = ["nlim", rng.choice([2.0, 3.0]), None]
                else:
                    o = ["engs", rng.choice(["gg", "tj", "tf"]), rng.choice(V), None, None]
                ops.append({"id": "t0.%d" % j, "op": o})
            return {"setup": {"pre": [g, r], "equiv": True}, "tasks": [ops]}
        pre = [rng.choice(cat.GAMMAS + [1.25]), rng.choice(RS)] if rng.random() < .5 else None
        nt = rng.choice([1, 2, 2])
        tasks = []
        for t in range(nt):
            ops, made = [], []
            for j in range(rng.randint(2, 6)):
                x = rng.random()
                if x < .35 or (t == nt - 1 and nt > 1 and x < .6):
                    ops.append(self.gasop(rng))
                elif x < .6 and made:
                    k, sp = rng.choice(made)
                    ops.append(["rd", k, rng.choice(sorted(OBJ[sp[0]][2]))])
                elif x < .75:
                    sp = [rng.choice(self.OBJK), 0, rng.choice(cat.GAMMAS)]
                    sp[1] = rng.randrange(len(OBJ[sp[0]][0]))
                    made.append(("n%d" % j, sp))
                    ops.append(["new", "n%d" % j, sp])
                else:
                    ops.append(self.eop(rng))
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o} for j, o in enumerate(ops)])
        return {"setup": {"pre": pre}, "tasks": tasks}

    def judge(self, scen, rec, ctx):
        v = []
        fired = {f[0] for f in rec["fired"]}
        pre = scen["setup"].get("pre")
        for t in scen["tasks"]:
            made, dead = {}, set()
            for o in t:
                op, i = o["op"], o["id"]
                r = rec["out"].get(i)
                if r is None or op[0] in ("gas", "load"):
                    continue
                if op[0] == "new":
                    made[op[1]] = op[2]
                    if r[0] != "ok":
                        dead.add(op[1])
                        if i not in fired:
                            v.append(("new:" + op[2][0], "%s %s" % (op, outcome_str(r))))
                    continue
                if i in fired and r[0] == "exc":
                    continue
                rt = 1e-9
                if op[0] == "rd":
                    if op[1] in dead or op[1] not in made:
                        continue
                    ref = ctx.ref(["rd", made[op[1]], op[2]], alone_read, made[op[1]], op[2])
                    rt = RTOL.get(op[2], rt)
                    key = made[op[1]][0]
                elif scen["setup"].get("equiv"):
                    g, rr = pre
                    named = {"fn": lambda: ["fn", op[1], op[2], g], "comp": lambda: ["comp", op[1], op[2], g],
                             "veld": lambda: ["vel", op[1], op[2], rr, g], "nlim": lambda: ["nlim", op[1], g],
                             "engs": lambda: ["engs", op[1], op[2], rr, g]}[op[0]]()
                    ref = ctx.ref(["op", named], alone4, named)
                    key = "default-first:" + op[1] if op[0] in ("fn", "comp") else "default-first:" + op[0]
                else:
                    ref = ctx.ref(["op", op], alone4, op)
                    key = op[1] if op[0] in ("fn", "comp") else op[0]
                if not same_outcome(r, ref, rt, max(1e-10, rt * 1e-2)):
                    v.append(("gas:" + key, "%s %s; with that gas named in a fresh process it %s" % (op, outcome_str(r), outcome_str(ref))))
        return v


PROP = C04()
