"""C02 a failed or interrupted call leaves nothing behind"""
from engine import *
import env as envmod
import catalog as cat
from catworld import *
from props.c01 import MODS


class W(CatWorld):
    def final(self):
        out = CatWorld.final(self)
        out["slot"] = envmod.saved_slot()
        return out


class C02(Prop):
    id = "C02"
    preload = MODS
    World = W
    runs = {"quick": 2700, "thorough": 47250}
    variants = 3
    modes = (("fault", 5), ("both", 1))
    max_faults = 3
    fault_kinds = ("kint", "mem", "nocv", "linalg", "epipe", "enospc", "cbraise")

    def gen(self, rng):
        objs = {"o%d" % i: draw_obj(rng) for i in range(rng.choice([0, 0, 1, 1, 2]))}
        nt = rng.choice([1, 1, 1, 2])
        given = rng.random() < .15          # what the caller lends to the library, only
        gas = [rng.choice([1.25, 1.4]), rng.choice([287.1, 300.0]), rng.choice([1.35, 1.4]), rng.choice([287.1, 310.0])] if rng.random() < .5 else None
        tasks = []
        for t in range(nt):
            ops = [draw_use(rng) if given else draw_op(rng, objs) for _ in range(rng.randint(1, 4))]
            # trying again, and close relatives, after the failure
            for o in list(ops):
                if rng.random() < .7:
                    ops.append(o)
                if o[0] == "fn" and rng.random() < .7:
                    ops.append(["fn", o[1], rng.randrange(len(cat.F[o[1]][2])), cat.gas_choice(rng, o[1])])
                if o[0] == "use" and rng.random() < .7:
                    ops.append(draw_use(rng, o[1]))
                if o[0] == "comp" and rng.random() < .7:
                    ops.append(["comp", o[1], rng.randrange(len(cat.COMP[o[1]][1])), rng.choice(cat.GAMMAS) if o[1] in cat.COMP_GAS else None])
                if o[0] == "rd" and rng.random() < .7:
                    ops.append(["rd", o[1], rng.choice(sorted(OBJ[objs[o[1]][0]][2]))])
            tasks.append([{"id": "t%d.%d" % (t, j), "op": o} for j, o in enumerate(ops)])
        return {"setup": {"obj": objs, "gas": gas}, "tasks": tasks}

    def judge(self, scen, rec, ctx):
        v = judge_all(scen, rec, ctx)
        for k, a, b in rec["globals"]:
            v.append(("global:" + k, "process-wide setting %r changed from %s to %s" % (k, a, b)))
        g = scen["setup"].get("gas")
        if g and rec["final"]["slot"] != (g[0], g[1]) and not same(rec["final"]["slot"], canon((g[0], g[1]))):
            v.append(("saved-slot", "the saved default gas was (%s, %s) and is now %s" % (g[0], g[1], brief(rec["final"]["slot"]))))
        if not g and not same(rec["final"]["slot"], ctx.ref("slot", envmod.saved_slot)[1]):
            v.append(("saved-slot", "a computation saved the default gas (%s)" % brief(rec["final"]["slot"])))
        return v


PROP = C02()
