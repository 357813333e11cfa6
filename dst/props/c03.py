"""C03 the default gas settings behave as one register, computations never touch them"""
from engine import *
import catalog as cat
from catworld import *
from lin import linearizable
from props.c01 import MODS

GV = [1.4, 1.3, 1.25, 1.2, 1.67]
RV = [287.1, 287.0, 300.0, 259.8]


def num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return brief(x)


def initial():
    import aerokit.common.defaultgas as d
    return d.gamma(), d.r_ideal()


class W(CatWorld):
    def do(self, task, op):
        import aerokit.common.defaultgas as d
        if op[0] == "gas":
            f = getattr(d, op[1])
            return f(*op[2:])
        if op[0] == "chk":       # the user's usual block: save, change, compute, restore
            d.save_default()
            try:
                d.set_gamma(op[1])
                return CatWorld.do(self, task, op[2])
            finally:
                d.restore_default()
        return CatWorld.do(self, task, op)

    def final(self):
        import aerokit.common.defaultgas as d
        out = [(d.gamma(), d.r_ideal())]
        for _ in range(2):
            try:
                d.restore_default()
            except Exception:
                pass
            out.append((d.gamma(), d.r_ideal()))
        return out


class C03(Prop):
    id = "C03"
    preload = MODS
    World = W
    runs = {"quick": 3000, "thorough": 56000}
    variants = 2
    modes = (("fault", 3), ("switch", 3), ("both", 3))
    fault_kinds = ("kint", "mem", "nocv", "linalg", "epipe", "cbraise")
    snapshot_globals = False

    def gen(self, rng):
        objs = {"o%d" % i: draw_obj(rng) for i in range(rng.choice([0, 0, 1]))}
        nt = rng.choice([1, 1, 2, 2, 3])
        tasks = []
        gv, rv = rng.sample(GV, 3), rng.sample(RV, 3)
        nops = 0
        for t in range(nt):
            ops = []
            user = t == 0 or rng.random() < .4       # at least one task plays with the settings
            if t == 0 and rng.random() < .8:
                ops += [["gas", "set_gamma", rng.choice(gv)], ["gas", "save_default"], ["gas", "set_gamma", rng.choice(gv)]]
            for j in range(rng.randint(2, 6)):
                r = rng.random()
                if user and r < .6 and nops < 14:
                    k = rng.choice(["set_gamma", "set_gamma", "set_r_ideal", "save_default", "restore_default", "restore_default", "gamma", "gamma", "r_ideal"])
                    ops.append(["gas", k] + ([rng.choice(gv)] if k == "set_gamma" else [rng.choice(rv)] if k == "set_r_ideal" else []))
                    nops += 1
                else:
                    ops.append(draw_op(rng, objs))
                    if rng.random() < .3 and nops < 14:
                        ops.append(["gas", rng.choice(["gamma", "r_ideal"])])
                        nops += 1
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o} for j, o in enumerate(ops)])
        return {"setup": {"obj": objs}, "tasks": tasks}

    def place(self, rng, scen, prof):
        # switches and faults mostly inside the computations
        return Prop.place(self, rng, scen, {k: p for k, p in prof.items()})

    def judge(self, scen, rec, ctx):
        v = []
        fired = {f[0] for f in rec["fired"]}
        ops = {o["id"]: o["op"] for t in scen["tasks"] for o in t}
        init = ctx.ref("initial", initial)[1]
        for reg, setter, getter, i0 in (("gamma", "set_gamma", "gamma", float(init[0])), ("r", "set_r_ideal", "r_ideal", float(init[1]))):
            hist = []
            for i, op in ops.items():
                r = rec["out"].get(i)
                if r is None or op[0] != "gas" or op[1] not in (setter, getter, "save_default", "restore_default"):
                    continue
                ok = r[0] == "ok"
                if not ok and i not in fired and op[1] != "restore_default":
                    v.append(("raises", "%s raised %s" % (op, r[1][:2])))
                res = "ok" if ok else ("maybe" if i in fired else "failed")
                if op[1] == getter:
                    if ok:
                        hist.append((r[3], r[4], ("get",), num(r[1])))
                elif op[1] == setter:
                    hist.append((r[3], r[4], ("set", op[2]), res))
                else:
                    hist.append((r[3], r[4], (op[1],), res))
            end = 1 << 30
            k = 0 if reg == "gamma" else 1
            for n, x in enumerate(rec["final"]):
                if n:
                    hist.append((end, end + 1, ("restore_default",), "maybe"))
                hist.append((end + 2, end + 3, ("get",), num(x[k])))
                end += 4

            def step(st, op, res, i0=i0):
                cur, sav = st
                if op[0] == "get":
                    return (st,) if res == cur else ()
                if op[0] == "set":
                    n = (op[1], sav)
                elif op[0] == "save_default":
                    n = (cur, cur)
                else:
                    if sav is None:
                        return (st, (i0, sav))
                    n = (sav, sav)
                    if res == "failed":
                        return ()
                return {"ok": (n,), "maybe": (n, st), "failed": (st,)}[res]

            # final restores: mark as ok when a save certainly happened
            saves = [ops[i] for i in ops if ops[i][0] == "gas" and ops[i][1] == "save_default" and rec["out"].get(i, ("x",))[0] == "ok"]
            if saves:
                hist = [(a, b, o, "ok" if (a >= 1 << 30 and o[0] == "restore_default") else s) for a, b, o, s in hist]
            if not linearizable(hist, (i0, None), step):
                v.append(("register:" + reg, "the values read for %s do not match the settings made: %s, finally %s" %
                          (reg, [(h[2], h[3]) for h in sorted(hist, key=lambda h: h[0]) if h[0] < 1 << 30], [brief(x) for x in rec["final"]])))
        return v


PROP = C03()
