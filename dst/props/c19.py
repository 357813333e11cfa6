"""C19 polar plots draw their own curves, where asked, and nothing else"""
from engine import *
import numpy as np

MODS = ("aerokit.aero.plot.shockpolar", "aerokit.aero.plot.isentropicpolar", "aerokit.aero.plot.defaultstyle")
CURVES = {"sp": ["both", "right", "left", "none"], "ip": ["C+", "C-", "c+", "c-", "both", "none"]}
STYLES = [None, None, {"linewidth": 3}, {"linewidth": 2, "alpha": 0.5}, {"label": "polar"}, "shock", "carac"]


def style_of(op):
    """the caller's options: a fresh dictionary, or the ones the library offers for that purpose"""
    import aerokit.aero.plot.defaultstyle as ds
    s = op["style"]
    return {} if s is None else {"shock": ds.sty_shock, "carac": ds.sty_carac}[s] if isinstance(s, str) else s


def model(op):
    """[(x, y, colour, line style, marker)] that the call has to draw, in any order"""
    import aerokit.aero.degree as deg
    import aerokit.aero.ShockWave as sw
    import aerokit.aero.Supersonic as su
    g = op["gamma"] or 1.4
    m, n = op["mach"], op["npts"]
    st = style_of(op)
    col, ls = st.get("color", op["color"] or "k"), op["ls"] or "-"
    opt = (float(st.get("linewidth", 1.5)), st.get("alpha"), st.get("label", ""))
    out = []
    if op["what"] == "ip":
        d = np.linspace(op["range"][0], op["range"][1], n + 1)
        for s, c in ((1.0, ("c+", "C+", "both")), (-1.0, ("c-", "C-", "both"))):
            if op["curve"] in c:
                out.append((op["t0"] + d, op["p0"] * np.array([su.IsentropicPsratio_Mach_deflection(m, s * x, gamma=g) for x in d]), col, ls, "None") + opt)
        return out
    sig = np.degrees(np.linspace(np.arcsin(1.0 / m), np.pi / 2, n + 1))
    dev = np.array([sw.deflection_Mach_sigma(m, x, g) for x in sig])
    marks = []
    if op["devmax"]:
        marks.append((sw.dev_Max(m, gamma=g), sw.sigma_DevMax(m, gamma=g), "r", "o"))
    if op["sonic"]:
        marks.append((sw.dev_Sonic(m, gamma=g), sw.sigma_Sonic(m, gamma=g), "k", "o"))

    def up(s):
        return s if op["what"] == "ts" else op["p0"] * sw.Ps_ratio(m * np.sin(np.radians(s)), gamma=g)
    t0 = op["t0"] if op["what"] == "tp" else 0.0
    for sgn, c in ((1.0, ("right", "both")), (-1.0, ("left", "both"))):
        if op["curve"] in c:
            out.append((t0 + sgn * dev, up(sig), col, ls, "None") + opt)
            out += [(np.atleast_1d(t0 + sgn * x), np.atleast_1d(up(y)), k, "None", mk) for x, y, k, mk in marks]
    return out


def lines(ax):
    from matplotlib.colors import to_hex
    return [(np.array(l.get_xdata(orig=True), dtype=float).ravel(), np.array(l.get_ydata(orig=True), dtype=float).ravel(), to_hex(l.get_color()), l.get_linestyle(),
             str(l.get_marker()), l.get_linewidth(), l.get_alpha(), str(l.get_label()) if not str(l.get_label()).startswith("_") else "") for l in ax.lines]


def close(a, b):
    from matplotlib.colors import to_hex
    if a[0].shape != b[0].shape or a[1].shape != b[1].shape or a[2] != to_hex(b[2]) or a[3] != b[3] or a[4] != b[4]:
        return False
    if a[4] == "None" and (a[5], a[6], a[7]) != tuple(b[5:8]):
        return False
    return np.allclose(a[0], b[0], rtol=1e-7, atol=1e-7, equal_nan=True) and np.allclose(a[1], b[1], rtol=1e-7, atol=1e-9, equal_nan=True)


def grid_state(ax):
    return (ax.get_yscale(), ax.get_xscale(), bool(ax.xaxis.get_gridlines() and ax.xaxis.get_gridlines()[0].get_visible()),
            len(ax.xaxis.get_minorticklocs()) > 0)


def ref_fig(kind):
    """what a new figure looks like in a fresh process"""
    import matplotlib.pyplot as plt
    import aerokit.aero.plot.defaultstyle as ds
    fig = getattr(ds, "figure_" + kind)()
    r = grid_state(plt.gca())
    plt.close(fig)
    return r


class W(World):
    def setup(self, cfg):
        import matplotlib.pyplot as plt
        for m in MODS:
            importlib.import_module(m)
        import aerokit.aero.plot.defaultstyle as ds
        self.plt = plt
        self.axes = []
        self.own = {}
        self.opts = [dict(s) for s in STYLES if isinstance(s, dict)]
        self.sty = {k: dict(v) for k, v in vars(ds).items() if isinstance(v, dict) and not k.startswith("_")}

    def axes_of(self, t):
        if t not in self.own:
            from matplotlib.figure import Figure
            self.own[t] = Figure().add_subplot()
            self.axes.append(self.own[t])
        return self.own[t]

    def do(self, task, op):
        import aerokit.aero.plot.defaultstyle as ds
        import aerokit.aero.plot.shockpolar as sp
        import aerokit.aero.plot.isentropicpolar as ip
        import aerokit.common.defaultgas as dg
        plt = self.plt
        k = op["k"]
        if k == "gas":
            dg.set_gamma(op["g"])
            return None
        if k == "fig":
            n0 = len(plt.get_fignums())
            fig = getattr(ds, "figure_" + op["what"])()
            self.axes += [a for a in fig.axes]
            if len(plt.get_fignums()) != n0 + 1 or plt.gcf() is not fig:
                self.note("figure", "figure_%s does not make one new current figure" % op["what"])
            return grid_state(fig.gca())
        if k == "grid":
            ax = self.axes_of(task) if op["own"] else plt.gca()
            ds.set_grid(ax) if op["own"] or op["give"] else ds.set_grid()
            return grid_state(ax)
        if k == "clf":
            plt.close("all")
            self.axes = [a for a in self.axes if a in self.own.values()]
            return None
        # a plot: on the axes given, or the current ones
        own = op["own"] and op["what"] == "tp"
        if own:
            ax = self.axes_of(task)
        elif task > 0:
            return None                     # the current axes of pyplot belong to the first caller
        else:
            ax = plt.gca()
            if ax not in self.axes:
                self.axes.append(ax)
        kw = style_of(op)
        st0 = dict(kw)
        args = dict(kw)
        if op["color"] and "color" not in kw:
            args["color"] = op["color"]
        if op["ls"]:
            args["linestyle"] = op["ls"]
        if op["gamma"]:
            args["gamma"] = op["gamma"]
        if op["what"] == "ts":
            f, a = sp.plot_theta_sigma, ()
        elif op["what"] == "tp":
            f, a = sp.plot_theta_pressure, ()
        else:
            f, a = ip.plot_theta_pressure, (tuple(op["range"]),)
        if op["what"] != "ts":
            args.update(thet_init=op["t0"], p_init=op["p0"])
        if op["what"] != "ip":
            args.update(devmax=op["devmax"], sonic=op["sonic"])
        if own:
            args["ax"] = ax
        if op.get("bad"):
            args["nosuchoption"] = 1
        passed = dict(args)
        before = {id(x): lines(x) for x in self.axes}
        nfig = len(plt.get_fignums())
        err = None
        try:
            f(op["mach"], *a, npts=op["npts"], curve=op["curve"], **passed)
        except BaseException as e:
            err = e
        self.sim.active = False
        try:
            if passed != args or kw != st0:
                self.note("options", "the caller's options were modified")
            for x in self.axes:
                # the other caller draws on its own axes meanwhile
                if x is not ax and (x not in self.own.values()) and task == 0 and len(lines(x)) != len(before[id(x)]):
                    self.note("elsewhere", "%s drew on other axes than those it was asked to" % short(op))
            if own and len(plt.get_fignums()) != nfig and len(self.scen["tasks"]) == 1:
                self.note("elsewhere", "%s on given axes opened another figure" % short(op))
            if own and task > 0:
                pass
            now, old = lines(ax), before[id(ax)]
            if any(not same(canon(p), canon(q)) for p, q in zip(old, now)) or len(now) < len(old):
                self.note("earlier", "%s changed curves drawn before" % short(op))
            new = now[len(old):]
            return_value = [self.num(l) for l in new]
            self.drawn = getattr(self, "drawn", {})
            self.drawn.setdefault(op["id"], []).append(return_value)
        finally:
            self.sim.active = True
        if err is not None:
            raise err
        return return_value

    def num(self, l):
        return l

    def final(self):
        import aerokit.aero.plot.defaultstyle as ds
        self.plt.close("all")
        return {"opts": self.opts == [s for s in STYLES if isinstance(s, dict)],
                "sty": {k: dict(v) for k, v in vars(ds).items() if isinstance(v, dict) and not k.startswith("_")} == self.sty,
                "drawn": getattr(self, "drawn", {})}


def short(op):
    return "%s(%s, gamma=%s, npts=%d, curve=%r%s%s)" % ({"ts": "plot_theta_sigma", "tp": "plot_theta_pressure", "ip": "isentropic plot_theta_pressure"}[op["what"]],
                                                      op["mach"], op["gamma"], op["npts"], op["curve"], ", on given axes" if op["own"] else "",
                                                      "".join(", %s" % x for x in ("devmax", "sonic") if op.get(x)))


class C19(Prop):
    id = "C19"
    preload = ("numpy", "scipy.optimize", "scipy.linalg", "matplotlib.pyplot", "matplotlib.figure", "matplotlib.backends.backend_agg") + MODS
    World = W
    runs = {"quick": 1200, "thorough": 14000}
    variants = 2
    modes = (("fault", 5), ("switch", 2), ("both", 3))
    fault_kinds = ("kint", "kint", "mem")
    max_faults = 2
    budget = 400000
    real = "aerokit.aero.plot and the functions it uses, matplotlib (Agg, without a display), numpy"
    stub = "caller tasks, figures' owner, fault injector, scheduler"

    def draw(self, rng, own, gas):
        what = "tp" if own else rng.choice(["ts", "tp", "tp", "ip"])
        st = rng.choice(STYLES)
        return {"k": "plot", "what": what, "mach": rng.choice([1.5, 2.0, 3.0] if what != "ip" else [2.0, 2.5, 3.0]), "gamma": rng.choice([1.4, 1.3, 1.2, 1.67] + ([] if gas else [None])),
                "npts": rng.choice([5, 8, 12, 30]), "curve": rng.choice(CURVES["ip" if what == "ip" else "sp"]), "devmax": rng.random() < .4,
                "sonic": rng.random() < .4, "color": rng.choice([None, "b", "red"]), "ls": rng.choice([None, "--", "-"]), "style": st,
                "t0": rng.choice([0.0, 0.0, 10.0, -5.0]), "p0": rng.choice([1.0, 1.0, 2.0, 0.5]), "range": rng.choice([[0.0, 10.0], [-5.0, 5.0], [0.0, 4.0]]),
                "own": own or rng.random() < .3, "bad": rng.random() < .05}

    def gen(self, rng):
        nt = rng.choice([1, 1, 2])
        gas = rng.random() < .4
        tasks = []
        for t in range(nt):
            ops = []
            for j in range(rng.randint(2, 6)):
                r = rng.random()
                if t == 0 and r < .2:
                    ops.append({"k": "fig", "what": rng.choice(["theta_sigma", "theta_pressure"])})
                elif r < .28:
                    ops.append({"k": "grid", "own": t > 0 or rng.random() < .4, "give": rng.random() < .5})
                elif t == 0 and r < .33:
                    ops.append({"k": "clf"})
                elif gas and r < .42:
                    ops.append({"k": "gas", "g": rng.choice([1.3, 1.2, 1.67])})
                elif ops and r < .55:
                    ops.append(dict(ops[-1]))
                else:
                    ops.append(self.draw(rng, t > 0, gas))
            for j, o in enumerate(ops):
                o["id"] = "t%d.%d" % (t, j)
            tasks.append([{"id": o["id"], "op": o} for o in ops])
        return {"setup": {}, "tasks": tasks}

    def judge(self, scen, rec, ctx):
        v = []
        fired = {f[0] for f in rec["fired"]}
        if not rec["final"]["opts"] or not rec["final"]["sty"]:
            v.append(("styles", "the styles offered by the library or the caller's options were changed"))
        for k, a, b in rec["globals"]:
            if k == "default gas":
                continue
            v.append(("global:" + k, "process-wide setting %r changed from %s to %s" % (k, a, b)))
        for t in scen["tasks"]:
            for o in t:
                op, r = o["op"], rec["out"].get(o["id"])
                if r is None or (r[0] == "exc" and r[1][0] in ("StepBudget", "Deadlock")):
                    continue
                if op["k"] == "fig" and o["id"] not in fired:
                    ref = ctx.ref(["fig", op["what"]], ref_fig, op["what"])
                    if not same_outcome(r, ref):
                        v.append(("figure", "figure_%s %s; in a fresh process it %s" % (op["what"], outcome_str(r), outcome_str(ref))))
                if op["k"] != "plot" or o["id"] not in rec["final"]["drawn"]:
                    continue
                want = ctx.ref(["model", {k: x for k, x in op.items() if k != "id"}], model, op)
                if want[0] != "ok":
                    continue              # outside the domain of the functions themselves
                want = list(want[1])
                for new in rec["final"]["drawn"][o["id"]]:
                    left = list(want)
                    for l in new:
                        i = next((i for i, w in enumerate(left) if close(l, w)), None)
                        if i is None:
                            v.append(("curve", "%s drew %s which is none of its curves" % (short(op), brief(canon(l)))))
                        else:
                            left.pop(i)
                    if left and r[0] == "ok":
                        v.append(("missing", "%s returned without drawing %d of its %d curves" % (short(op), len(left), len(want))))
                if r[0] == "exc" and o["id"] not in fired and not op["bad"]:
                    v.append(("raises", "%s %s" % (short(op), outcome_str(r))))
                if r[0] == "ok" and op["bad"] and want:
                    v.append(("accepts", "%s ignored an unknown option" % short(op)))
        return v


PROP = C19()
