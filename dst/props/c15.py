"""C15 the variable denomination database switches whole and never loses entries"""
from engine import *
from lin import linearizable

SOFT = ["IC3", "cx", "charlesx", "OF", "openfoam", "ofoam", "OpenFOAM"]
BADSOFT = ["fluent", "", None, 3]
VARS = ["P", "rho", "u_avg", "t_avg", "u_rey", "Vx"]
NEW = ["k", "omega", "mut"]
VALS = ["A1", "B2", "C3", "Uavg"]


def dv():
    import aerokit.common.dicovar as d
    return d


def items():
    d = dv().dicoVar
    return tuple(sorted((k, d.get(k)) for k in list(d.keys())))


def ref_select(soft):
    """pristine denominations of a software, and how it is named in messages"""
    d = dv()
    if soft is not None:
        d.setDicoVar(soft)
    it = items()
    out = sys.stdout
    n = len(out.parts)
    d.printDicoVar()
    head = heads("".join(out.parts[n:]))
    msgs = []
    for var in ("no such variable",):
        try:
            d.dicoVar.get(var)
            msgs.append("no error")
        except Exception as e:
            msgs.append(str(e))
    return it, head, tuple(msgs)


def ref_ext():
    """the expressions, as functions of the denominations"""
    import aerokit.common.extendvar as ev
    d = dv()
    for k in NEED:
        d.dicoVar.setVar(k, "@%s@" % k)
    e = ev.expressions_from_rhopv()
    old = dict(items())
    return {k: x for k, x in e.items() if old.get(k) != x}


NEED = ("P", "rho", "V", "Vx", "Vy")


def extended(tpl, d):
    out = dict(d)
    for k, x in tpl.items():
        for n in NEED:
            x = x.replace("@%s@" % n, d[n])
        out[k] = x
    return tuple(sorted(out.items()))


def heads(text):
    return tuple(x.strip() for x in text.split("\n") if "=>" not in x and x.strip())


def pairs(text):
    return tuple(sorted(tuple(y.strip() for y in x.split("=>", 1)) for x in text.split("\n") if "=>" in x))


class W(World):
    def do(self, task, op):
        d = dv()
        k = op[0]
        if k == "sel":
            return d.setDicoVar(op[1])
        if k == "get":
            return d.dicoVar.get(op[1])
        if k == "call":
            return d.dicoVar(op[1])
        if k == "item":
            return d.dicoVar[op[1]]
        if k == "name":
            try:
                return d.dicoVar.get("no such variable")
            except Exception as e:
                return str(e)
        if k == "keys":
            return tuple(sorted(d.dicoVar.keys()))
        if k == "dump":
            self.sim.active = False
            try:
                return items()
            finally:
                self.sim.active = True
        if k == "add":
            return d.dicoVar.addVar(op[1], op[2])
        if k == "set":
            return d.dicoVar.setVar(op[1], op[2])
        if k == "ext":                       # the expressions of the extended variables belong to their caller
            import aerokit.common.extendvar as ev
            e = ev.expressions_from_rhopv()
            r = tuple(sorted(e.items()))
            e.clear()
            e["rho"] = "mine"
            return r
        if k == "print":
            n = len(self.out.parts)
            (d.printDicoVar if op[1] else d.dicoVar.printDatabase)()
            t = "".join(s for s, w in zip(self.out.parts[n:], self.out.who[n:]) if w == task)
            return [heads(t), pairs(t)]

    def final(self):
        return items()


class C15(Prop):
    id = "C15"
    preload = ("aerokit.common.dicovar", "aerokit.common.extendvar")
    World = W
    runs = {"quick": 3000, "thorough": 62999}
    variants = 3
    modes = (("fault", 4), ("switch", 3), ("both", 3))
    fault_kinds = ("kint", "mem", "epipe", "enospc")
    max_faults = 3
    budget = 20000

    def gen(self, rng):
        nt = rng.choice([1, 1, 2, 2, 3])
        tasks = []
        softs = rng.sample(SOFT, 3)
        for t in range(nt):
            ops = []
            for j in range(rng.randint(2, {1: 12, 2: 7, 3: 4}[nt])):
                r = rng.random()
                if r < .3:
                    ops.append(["sel", rng.choice(BADSOFT) if rng.random() < .2 else rng.choice(softs)])
                elif r < .42:
                    ops.append(["add", rng.choice(NEW if rng.random() < .7 else VARS), rng.choice(VALS)])
                elif r < .54:
                    ops.append(["set", rng.choice(VARS if rng.random() < .7 else NEW), rng.choice(VALS)])
                elif r < .78:
                    ops.append([rng.choice(["get", "call", "item"]), rng.choice(VARS + NEW)])
                elif r < .84:
                    ops.append(["dump"])
                elif r < .89:
                    ops.append(["keys"])
                elif r < .93:
                    ops.append(["name" if rng.random() < .5 else "ext"])
                else:
                    ops.append(["print", rng.random() < .5])
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o} for j, o in enumerate(ops)])
        return {"setup": {}, "tasks": tasks}

    def judge(self, scen, rec, ctx):
        fired = {f[0] for f in rec["fired"]}
        ops = {o["id"]: o["op"] for t in scen["tasks"] for o in t}
        pristine = {}
        for s in [None] + sorted({o[1] for o in ops.values() if o[0] == "sel" and isinstance(o[1], str)}):
            r = ctx.ref(["soft", s], ref_select, s)
            pristine[s] = r[1] if r[0] == "ok" else None
        tpl = ctx.ref("ext", ref_ext)
        tpl = tpl[1] if tpl[0] == "ok" else {}
        if pristine[None] is None:
            return [("initial", "the database cannot be read in a fresh process")]
        hist = []
        for i, op in ops.items():
            r = rec["out"].get(i)
            if r is None:
                continue
            conc = any(o != i and x[3] < r[4] and x[4] > r[3] for o, x in rec["out"].items())
            hist.append((r[3], r[4], (op, i in fired, conc), r))
        hist.sort(key=lambda h: h[0])
        end = max([h[1] for h in hist] + [0])
        hist.append((end + 1, end + 2, (["dump"], False, False), ("ok", rec["final"])))

        def step(st, o, r):
            op, f, conc = o
            soft, it = st
            d = dict(it)
            head, msg = pristine[soft][1], pristine[soft][2][0]
            k, exc = op[0], r[0] == "exc"
            if exc and r[1][0] in ("StepBudget", "Deadlock"):
                return [st]
            if k == "sel":
                p = pristine.get(op[1]) if isinstance(op[1], str) else None
                new = None if p is None else (op[1], p[0])
                if exc:
                    if f:
                        return [st] if new is None else [st, new]
                    return [st] if new is None else []
                return [] if new is None else [new]
            if exc and f:               # it failed by the fault: it may or may not have had its effect
                if k == "add" and (op[1] not in d or conc) or k == "set" and (op[1] in d or conc):
                    return [st, (soft, tuple(sorted({**d, op[1]: op[2]}.items())))]
                return [st]
            if k in ("get", "call", "item"):
                if exc:
                    return [st] if op[1] not in d else []
                return [st] if d.get(op[1]) == r[1] else []
            if k == "name":
                return [st] if not exc and (r[1] == msg or conc or f) else []
            if k == "keys":
                return [st] if not exc and tuple(r[1]) == tuple(sorted(d)) else []
            if k == "ext":
                if any(n not in d for n in NEED):
                    return [st] if exc else []
                return [st] if not exc and tuple(map(tuple, r[1])) == extended(tpl, d) else []
            if k == "dump":
                return [st] if not exc and tuple(map(tuple, r[1])) == tuple(sorted(d.items())) else []
            if k == "print":
                if exc:
                    return []
                h, p = r[1]
                return [st] if p == tuple(sorted(d.items())) and (h == head or conc) else []
            bad = (op[1] in d) == (k == "add")
            if exc:
                return [st] if bad or conc else []
            return [(soft, tuple(sorted({**d, op[1]: op[2]}.items())))] if not bad or conc else []

        init = (None, tuple(sorted(map(tuple, pristine[None][0]))))
        if linearizable(hist, init, step):
            return []
        # name the first observation that cannot be explained
        worst = "final"
        for n in range(1, len(hist) + 1):
            if not linearizable(hist[:n], init, step):
                worst = hist[n - 1][2][0][0] if n < len(hist) else "final"
                bad = hist[n - 1]
                break
        return [("history:" + worst, "no order of the calls explains %s %s (calls: %s)" % (bad[2][0], outcome_str(bad[3]),
                 "; ".join("%s %s" % (h[2][0], outcome_str(h[3])) for h in hist[:-1])[:600]))]


PROP = C15()
