"""C01 concurrent callers never influence one another"""
from engine import *
import catalog as cat
from catworld import *

MODS = tuple(cat.MODULES) + cat.COMP_MODULES + ("aerokit.common.dicovar",)


class C01(Prop):
    id = "C01"
    preload = MODS
    World = CatWorld
    runs = {"quick": 2400, "thorough": 42000}
    variants = 2
    modes = (("switch", 4), ("both", 1))
    max_switches = 10
    fault_kinds = ("kint", "mem", "nocv", "linalg", "cbraise")
    rule_extra = "; tasks are threads or user callbacks"

    def gen(self, rng):
        objs = {"o%d" % i: draw_obj(rng) for i in range(rng.choice([0, 1, 1, 2]))}
        nt = rng.choice([2, 2, 3, 3, 4])
        # half of the scenarios: every caller uses the same few operations (same functions, other gas or data)
        focus = None
        if rng.random() < .6:
            base = [draw_op(rng, objs) for _ in range(rng.randint(1, 3))]
            focus = []
            for o in base:
                focus.append(o)
                for _ in range(2):
                    if o[0] == "fn":
                        focus.append(["fn", o[1], rng.randrange(len(cat.F[o[1]][2])), cat.gas_choice(rng, o[1])])
                    elif o[0] == "use":
                        focus.append(draw_use(rng, o[1]))
                    elif o[0] == "comp":
                        focus.append(["comp", o[1], rng.randrange(len(cat.COMP[o[1]][1])), rng.choice(cat.GAMMAS) if o[1] in cat.COMP_GAS else None])
        tasks = []
        for t in range(nt):
            n = rng.randint(1, 4)
            tasks.append([{"id": "t%d.%d" % (t, j), "op": rng.choice(focus) if focus and rng.random() < .85 else draw_op(rng, objs)} for j in range(n)])
        return {"setup": {"obj": objs}, "tasks": tasks}

    def fault_ok(self, scen, op, label, kind):
        return not ("converge_eigenpair" in label and kind == "singular")

    def judge(self, scen, rec, ctx):
        return judge_all(scen, rec, ctx)


PROP = C01()
