"""C05 nozzle operating point: all or nothing, whatever the history"""
import numpy as np
from engine import *
from lin import linearizable

GEOMS = {
    # x count, area law, forced exit/throat ratio (None: from the law)
    "cd6": (24, 6.0, None), "cd2": (16, 2.0, None), "cd18": (20, 1.8, 1.8), "trunc": (18, 3.0, 2.2), "cd3": (12, 3.0, None),
}
NPRS = [1.01, 1.03, 1.06, 1.2, 1.5, 1.9, 2.5, 3.0, 4.0, 6.0, 12.0, 60.0]
BAD = ["a", None, "arr", "obj"]
GAMMAS = [1.4, 1.3, 1.2, 1.6]
ACC = ["Mach", "Ps", "Ptot"]


def geometry(name):
    n, r, forced = GEOMS[name]
    x = np.linspace(0.0, 8.0, n)
    sec = np.where(x < 2.0, 1.0 + 0.25 * (2.0 - x) ** 2, 1.0 + (r - 1.0) * ((x - 2.0) / 6.0) ** 2)
    return x, sec, forced


def build(name, gamma, npr=None):
    import aerokit.instance.nozzle as nz
    x, sec, forced = geometry(name)
    kw = {} if gamma is None else {"gamma": gamma}
    return nz.nozzle(x, sec, AsoAc=forced, NPR=npr, **kw)


def badvalue(b):
    return {"a": "a", "None": None, "arr": np.array([2.0, 3.0]), "obj": object()}[str(b)]


def limits(z):
    return {k: getattr(z, k) for k in ("NPR0", "NPRsw", "NPR1", "Msub", "Msh", "Msup", "AsoAc", "ithroat", "gamma")}


def fresh(name, gamma, npr):
    z = build(name, gamma, npr)
    return {"Mach": z.Mach(), "Ps": z.Ps(), "Ptot": z.Ptot()}


def fresh_limits(name, gamma):
    return limits(build(name, gamma))


class W(World):
    def setup(self, cfg):
        self.nz, self.args, self.held = {}, [], []
        for k, (g, gam, npr) in cfg["nozzles"].items():
            self.mk(k, g, gam, npr)

    def mk(self, k, g, gam, npr):
        import aerokit.instance.nozzle as nz
        x, sec, forced = geometry(g)
        self.args.append((x, x.copy(), sec, sec.copy(), g))
        kw = {} if gam is None else {"gamma": gam}
        self.nz[k] = nz.nozzle(x, sec, AsoAc=forced, NPR=npr, **kw)

    def do(self, task, op):
        import aerokit.common.defaultgas as defg
        if op[0] == "set":
            z = self.nz[op[1]]
            return z.set_NPR(badvalue(op[2]) if op[2] in BAD else op[2])
        if op[0] in ACC:
            r = getattr(self.nz[op[1]], op[0])()
            if isinstance(r, np.ndarray):
                self.held.append((op[1], op[0], r, r.copy()))
            return r
        if op[0] == "limits":
            return limits(self.nz[op[1]])
        if op[0] == "new":
            z = build(op[1], op[2], op[3])
            return {"Mach": z.Mach(), "Ps": z.Ps(), "Ptot": z.Ptot()}
        if op[0] == "gas":
            return defg.set_gamma(op[1])

    def final(self):
        out = {}
        for k, z in self.nz.items():
            out[k] = {a: getattr(z, a)() for a in ACC if hasattr(z, "_M") or self.scen["setup"]["nozzles"][k][2]}
            try:
                out[k] = {a: getattr(z, a)() for a in ACC}
            except AttributeError:
                out[k] = None
        out["held"] = sorted({k + "." + a for k, a, r, c in self.held if not np.array_equal(r, c, equal_nan=True)})
        out["args"] = [bool((a == b).all() and (c == d).all()) for a, b, c, d, _ in self.args]
        return out


class C05(Prop):
    id = "C05"
    preload = ("aerokit.instance.nozzle",)
    World = W
    fault_kinds = ("kint", "mem", "nocv", "epipe")
    runs = {"quick": 1950, "thorough": 31499}
    variants = 3

    def gen(self, rng):
        nn = rng.choice([1, 1, 2])
        geoms = [rng.choice(list(GEOMS)) for _ in range(nn)]
        noz = {}
        for i in range(nn):
            g = geoms[0] if rng.random() < .6 else geoms[i]
            noz["z%d" % i] = [g, rng.choice(GAMMAS + [None]), rng.choice(NPRS + [None])]
        tasks = []
        nt = rng.choice([1, 1, 2, 2, 3])
        pool = rng.sample(NPRS, rng.randint(2, 5))
        for t in range(nt):
            ops = []
            writer = rng.random() < .75 or nt == 1
            for j in range(rng.randint(2, 6)):
                k = rng.choice(list(noz))
                r = rng.random()
                if r < (.5 if writer else .1):
                    op = ["set", k, rng.choice(BAD) if rng.random() < .15 else rng.choice(pool)]
                elif r < .9:
                    op = [rng.choice(ACC), k]
                elif r < .94:
                    op = ["limits", k]
                elif r < .97:
                    op = ["gas", rng.choice(GAMMAS)]
                else:
                    op = ["new", noz[k][0], noz[k][1], rng.choice(pool)]
                ops.append({"id": "t%d.%d" % (t, j), "op": op})
            tasks.append(ops)
        return {"setup": {"nozzles": noz}, "tasks": tasks}

    def place(self, rng, scen, prof):
        return Prop.place(self, rng, scen, prof)

    def judge(self, scen, rec, ctx):
        v = []
        fired = {f[0] for f in rec["fired"]}
        ops = {o["id"]: o["op"] for t in scen["tasks"] for o in t}
        for k, (g, gam, npr0) in scen["setup"]["nozzles"].items():
            mine = {i: o for i, o in ops.items() if o[0] in ACC + ["set"] and o[1] == k}
            vals = [npr0] + [o[2] for o in mine.values() if o[0] == "set" and o[2] not in BAD]
            vals = sorted({x for x in vals if x})
            refs = {x: ctx.ref(["nz", g, gam, x], fresh, g, gam, x) for x in vals}
            bad = [x for x in vals if refs[x][0] != "ok"]
            hist = []
            for i, o in mine.items():
                r = rec["out"].get(i)
                if r is None:
                    continue
                if o[0] == "set":
                    tag = "ok" if r[0] == "ok" else ("maybe" if i in fired else "failed")
                    if tag == "failed" and o[2] not in BAD and o[2] not in bad:
                        v.append(("set-raises", "set_NPR(%s) on %s raised %s although nothing was injected" % (o[2], k, r[1][:2])))
                        tag = "maybe"
                    if tag == "ok" and o[2] in BAD:
                        tag = "wild"
                    hist.append((r[3], r[4], ("w", o[2] if o[2] not in BAD else None, i), tag))
                else:
                    if r[0] == "exc":
                        if i in fired:
                            continue
                        m = frozenset([None]) if r[1][0] == "AttributeError" else frozenset()
                    elif r[1] is None:
                        m = frozenset([None])
                    else:
                        m = frozenset(x for x in vals if x not in bad and same(r[1], refs[x][1][o[0]]))
                    hist.append((r[3], r[4], ("r", o[0], i), m))
            end = 1 << 30
            fin = rec["final"][k]
            for a in ACC:
                if fin is None or fin[a] is None:
                    m = frozenset([None])
                else:
                    m = frozenset(x for x in vals if x not in bad and same(fin[a], refs[x][1][a]))
                hist.append((end, end + 1, ("r", a, "final"), m))
                end += 2

            def step(st, op, res):
                if op[0] == "w":
                    if st == "?":
                        return (op[1],) if res == "ok" else ("?",)
                    return {"ok": (op[1],), "failed": (st,), "maybe": (st, op[1]) if op[1] is not None else (st,), "wild": ("?",)}[res]
                return (st,) if st == "?" or st in res else ()
            if not linearizable(hist, npr0 or None, step):
                empty = [h[2] for h in hist if h[2][0] == "r" and not h[3]]
                if empty:
                    v.append(("torn", "%s of nozzle %s (%s, gamma=%s) is the distribution of none of the requested pressure ratios %s" %
                              (empty[0][1], k, g, gam, vals)))
                else:
                    v.append(("stale", "reads of nozzle %s do not correspond to the requests made: %s" %
                              (k, [(h[2], h[3] if isinstance(h[3], str) else sorted(map(str, h[3]))) for h in hist])))
        for i, o in ops.items():
            r = rec["out"].get(i)
            if r is None or i in fired:
                continue
            if o[0] == "limits":
                g, gam, _ = scen["setup"]["nozzles"][o[1]]
                if not same_outcome(r, ctx.ref(["nzl", g, gam], fresh_limits, g, gam)):
                    v.append(("limits", "regime limits of nozzle %s changed: %s" % (o[1], outcome_str(r))))
            if o[0] == "new":
                if not same_outcome(r, ctx.ref(["nz", o[1], o[2], o[3]], fresh, o[1], o[2], o[3])):
                    v.append(("fresh", "a new nozzle %s differs from one made in a fresh process: %s" % (o, outcome_str(r))))
        if rec["final"]["held"]:
            v.append(("held", "the distributions read earlier changed afterwards: %s" % (rec["final"]["held"],)))
        if not all(rec["final"]["args"]):
            v.append(("args", "the section or abscissa array of the caller was modified"))
        return v


PROP = C05()
