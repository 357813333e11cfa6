"""world of callers drawing operations from the catalogue, sharing arrays and solved objects for reading"""
import numpy as np
import catalog as cat
from engine import World

# ---- solved objects shared for reading: kind -> (variants, maker, {reader: fn(obj, args)})
X21 = np.linspace(-2.0, 2.0, 21)


def _mk_nozzle(v, g):
    import aerokit.instance.nozzle as nz
    x, s = cat.nozzle_geom(v[0])
    return nz.nozzle(x, s, NPR=v[1], **cat._g(g))


def _mk_riemann(v, g):
    import aerokit.aero.unsteady1D as uq
    import aerokit.instance.riemann as rm
    return rm.riemann_pb(uq.unsteady_state(v[0], v[1], v[2], **cat._g(g)), uq.unsteady_state(v[3], v[4], v[5], **cat._g(g)))


def _mk_inflow(v, g):
    import aerokit.aero.unsteady1D as uq
    import aerokit.instance.unsteady_inflow as inf
    p = inf.inflow_pb(uq.unsteady_state(v[0], v[1], v[2], **cat._g(g)))
    p.solve_with_pt0_rtt0(v[3], v[4])
    return p


def _mk_state(v, g):
    import aerokit.aero.unsteady1D as uq
    return uq.unsteady_state(np.array([1.0, 2.0, 3.0]) * v[0], np.array([2.5, 3.0, 4.0]), np.array([1.0, 1.0, 0.5]), **cat._g(g))


def _mk_cheb(v, g):
    import aerokit.common.numspectral as ns
    c = ns.ChebCollocation(v[0], xmin=0.0, xmax=2.0)
    c.matder(v[1])
    return c


def _mk_euler(v, g):
    import aerokit.stability.Euler as eu
    import aerokit.aero.model1D as m1
    e = eu.Euler1D(v[0], xmin=0.0, xmax=1.0)
    x = e.x
    e.set_basestate(m1.state(rho=1.0 + 0.1 * x, u=v[1] * (1.0 + 0.2 * x), p=1.0 + 0.05 * x, **cat._g(g)))
    e.set_BC("sym", "sym")
    e.solve_eig()
    return e


def _mk_pois(v, g):
    import aerokit.stability.OrrSommerfeld as os_
    p = os_.Poiseuille(v[0], 1.0, 1000.0)
    p.solve_eig()
    return p


def _mk_tf(v, g):
    import aerokit.engine.turbofan as tf
    return cat._tj(v, g, tf.turbofan_adapt)


def _conv(e):
    vals, vects, order = e.select_and_sort(sort="imag", realmin=-1e3, realmax=1e3, imagmin=-1e3, imagmax=1e3)
    om, md = e.converge_eigenpair(vals[order[0]] * 1.001 + 1e-3, vects[:, order[0]], niter=2)
    return om, np.abs(md)


def _sel(e):
    vals, vects, order = e.select_and_sort(sort="imag", realmin=-1e3, realmax=1e3, imagmin=-1e3, imagmax=1e3)
    return vals[order], np.abs(vects[:, order])


OBJ = {
    "nozzle": (cat.COMP["nozzle"][1], _mk_nozzle, {"Mach": lambda o: o.Mach(), "Ps": lambda o: o.Ps(), "Ptot": lambda o: o.Ptot(),
                                                   "lim": lambda o: (o.NPR0, o.NPRsw, o.NPR1)}),
    "riemann": (cat.COMP["riemann"][1], _mk_riemann, {
        "qsol": lambda o: o.qsol(X21.copy()), "qsol2": lambda o: o.qsol(X21[:9] * 1.3), "stars": lambda o: (o.pstar(), o.ustar(), o.qstarL(), o.qstarR()),
        "waves": lambda o: (o.left_fastest(), o.right_fastest()), "repr": lambda o: repr(o)}),
    "inflow": (cat.COMP["inflow"][1], _mk_inflow, {"stars": lambda o: (o.pstar(), o.ustar(), o.qstarL(), o.qstarR()), "repr": lambda o: repr(o)}),
    "state": ([[1.0], [2.0]], _mk_state, {
        "Mach": lambda o: o.Mach(), "Ptot": lambda o: o.Ptot(), "rTtot": lambda o: o.rTtot(), "item": lambda o: o[1], "copy": lambda o: o.copy(),
        "RH": lambda o: o.state_RH(), "iso": lambda o: o.state_isentropic_Mach(0.5), "ac": lambda o: (o.left_acoustic(), o.right_acoustic()),
        "exp": lambda o: o.delta_u_expansion(0.4), "sym": lambda o: o.copysymmetric(), "repr": lambda o: repr(o)}),
    "cheb": ([[7, 2], [9, 4], [8, 1]], _mk_cheb, {
        "d1": lambda o: o.matder(1), "d2": lambda o: o.matder(2), "d4": lambda o: o.matder(4), "x": lambda o: (o.x, o.xi),
        "ext": lambda o: o.extrapol(np.sin(o.x), X21[12:16]), "fit": lambda o: o.fit_to_gauss(X21 * 0.5 + 1.0, np.cos(X21))}),
    "euler": ([[8, 0.3], [9, 0.6]], _mk_euler, {"rhs": lambda o: o.get_RHS_time_matrices(), "sel": _sel, "conv": _conv}),
    "pois": ([[10], [12]], _mk_pois, {"rhs": lambda o: o.get_RHS_time_matrices(), "sel": _sel, "conv": _conv}),
    "turbofan": (cat.COMP["turbofan"][1], _mk_tf, {"all": lambda o: (o.spec_thrust(), o.thermal_efficiency(), o.propulsive_efficiency(), o.Sfc()),
                                                   "kin": lambda o: (o.Wsp_kinEn(), o.norm_thrust(), o.Wsp_cc()), "pub": cat.pub}),
    "dico": ([["canonical"]], lambda v, g: None, {"get": lambda o: _dico().get("rho"), "keys": lambda o: sorted(_dico().keys()), "call": lambda o: _dico()("pi")}),
}
RTOL = {"conv": 1e-6, "sel": 1e-8}


# ---- uses of the library with things the caller owns and gives to several calls: arrays, states, dictionaries, gases
def _wide():
    return np.array([-9.0, -1.5, -0.4, 0.0, 0.3, 1.1, 7.0])


def _us(rho, u, p, g):
    import aerokit.aero.unsteady1D as uq
    return lambda: uq.unsteady_state(rho, u, p, **cat._g(g))


def _base(n, g):
    import aerokit.aero.model1D as m1
    x = np.linspace(1.0, 0.0, n)
    return lambda: m1.state(rho=1.0 + 0.1 * x, u=0.3 * (1.0 + 0.2 * x), p=1.0 + 0.05 * x, **cat._g(g))


def _u_riemann(v, g, G):
    import aerokit.instance.riemann as rm
    p = rm.riemann_pb(G("qL%s" % g, _us(1.0, 0.0, 1.0, g)), G("qR%d%s" % (v[0], g), _us(0.5 - 0.3 * v[0], 0.1 * v[0], 0.6 - 0.4 * v[0], g)))
    return p.qsol(G("xot", _wide)), p.pstar(), p.qsol(G("xot", _wide))


def _u_inflow(v, g, G):
    import aerokit.instance.unsteady_inflow as inf
    p = inf.inflow_pb(G("qL%s" % g, _us(1.0, 0.0, 1.0, g)))
    p.solve_with_pt0_rtt0(1.2 + 0.1 * v[0], 1.1)
    return p.pstar(), p.ustar(), p.qstarL(), p.qstarR()


def _u_nozzle(v, g, G):
    import aerokit.instance.nozzle as nz
    z = nz.nozzle(G("x", lambda: cat.nozzle_geom(2.0)[0]), G("section", lambda: cat.nozzle_geom(2.0)[1]), NPR=v[0], **cat._g(g))
    return z.Mach(), z.Ps(), z.Ptot()


def _u_euler(v, g, G):
    import aerokit.stability.Euler as eu
    e = eu.Euler1D(8, xmin=0.0, xmax=1.0, basestate=G("base8%s" % g, _base(8, g)))
    bc = G("rh", lambda: {"type": "RH", "dM0dx": 0.1}) if v[0] == "RH" else G(v[0], lambda: {"type": v[0]})
    e.set_BC(bc, G("sym", lambda: {"type": "sym"}) if v[0] != "per" else bc)
    return e.get_RHS_time_matrices()


def _u_os(v, g, G):
    import aerokit.stability.OrrSommerfeld as os_
    m = os_.OrrSommerfeldModel(9, -1.0, 1.0 + v[0], G("flow", lambda: {"alpha": 1.0, "Reynolds": 500.0, "uprofile": lambda x: 1.0 - x ** 2}))
    w = G("wall", lambda: {"type": "wall"})
    m.set_BC(w, w)
    return m.get_RHS_time_matrices()


def _u_conv(v, g, G):
    import aerokit.stability.OrrSommerfeld as os_
    p = os_.Poiseuille(9, 1.0, 500.0)
    om, md = p.converge_eigenpair(0.3 - 0.1j, G("mode%d" % v[0], lambda: np.linspace(1.0, 2.0, 9) if v[0] else np.ones(9) + 1j), niter=2)
    return om, np.abs(md)


def _u_ext(v, g, G):
    import aerokit.common.numspectral as ns
    c = ns.ChebCollocation(7, 0.0, 2.0)
    x = G("xe", lambda: np.linspace(-0.2, 2.2, 5))
    f = G("fk%d" % v[0], lambda: np.linspace(0.0, 1.0, 7) ** 2 * (1j if v[0] else 1))
    return c.extrapol(f, x), c.extrapol(f, 0.3), c.extrapol(np.ones(7), x)


def _u_fit(v, g, G):
    import aerokit.common.numspectral as ns
    c = ns.ChebCollocation(5, 0.0, 2.0)
    x = G("xf", lambda: np.linspace(0.0, 2.0, 11))
    return c.fit_to_gauss(x, G("ff%d" % v[0], lambda: np.exp((1j if v[0] else 1) * np.linspace(0.0, 1.0, 11))))


def _u_engine(v, g, G):
    import aerokit.engine.turbofan as tf
    e = tf.turbofan_adapt(G("opr", lambda: np.array([10.0, 20.0, 30.0])), G("tt4", lambda: np.array([1400.0, 1500.0, 1600.0])), 5.0, 0.6,
                          **({} if g is None else {"gam_cold": g}))
    e.flight_conditions(T0=220.0, P0=25000.0, M0=G("m0", lambda: np.array([0.3, 0.5, 0.8])) if v[0] else 0.8)
    e.update()
    return cat.pub(e), e.spec_thrust(), e.Sfc()


def _u_cycle(v, g, G):
    import aerokit.engine.Cycle_Turbofan as ct
    c = (ct.cycle_taux_fan_fixe if v[0] else ct.cycle_taux_fan_calcule)(6.1, 32.8, 1410.0, 180.0, G("gaz", ct.Gaz), G("fuel", lambda: ct.Gaz(1.33, 291.6, 42800.0e3)), 1.6 if v[0] else 0.5)
    c.calculs_5_to_9()
    c.show_perfo()
    return {k: x for k, x in cat.pub(c).items() if isinstance(x, (int, float))}


def _u_state(v, g, G):
    import aerokit.aero.model1D as m1
    pt, rtt, m = G("pt", lambda: np.array([1.5, 2.0, 2.5])), G("rtt", lambda: np.array([1.2, 1.1, 1.3])), G("mach", lambda: np.array([0.4, 1.0, 1.8]))
    q = m1.state(G("rho", lambda: np.ones(3)), m, pt, **cat._g(g))
    c = q.copy()
    if v[0] == "M":
        c.compute_from_pt_rtt_M(pt, rtt, m)
    elif v[0] == "u":
        c.compute_from_pt_rtt_u(pt, rtt, G("vel", lambda: np.array([0.1, 0.3, 0.5])))
    else:
        c.compute_from_pt_rtt_p(pt, rtt, G("rho", lambda: np.ones(3)))
    return q, c, q.state_RH(), q.state_isentropic_Mach(m), c.size, repr(c)


def _u_unsteady(v, g, G):
    q = G("qL%s" % g, _us(1.0, 0.0, 1.0, g))
    p = G("ps", lambda: np.array([0.001, 0.3, 1.0, 1.4, 90.0]))
    return (q.copysymmetric(), q.delta_u_expansion(p), q.delta_u_shock(p), q.rho_through_shock(p), q.rho_through_isentropic(p),
            q._rankinehugoniot_from_ushock(-2.0), q.Mach(), q.Ptot())


def _u_ode(v, g, G):
    import aerokit.common._ode as od
    return getattr(od, v[0])(lambda x, y: np.array([y[1], -y[0]]), 0.0, G("y0", lambda: np.array([0.0, 1.0])), 1.0, 0.1)


def _u_secant(v, g, G):
    from aerokit.aero.IterativeSolve import secant_solve
    return secant_solve(lambda x: x ** 3 + x, G("ty", lambda: np.array([0.5, 2.0, 10.0])), G("tx", lambda: np.array([1.0, 1.5, 1.0])))


USE = {"u_riemann": (_u_riemann, [[0], [1]]), "u_inflow": (_u_inflow, [[0], [1]]), "u_nozzle": (_u_nozzle, [[1.1], [1.6], [40.0]]),
       "u_euler": (_u_euler, [["sym"], ["per"], ["RH"]]), "u_os": (_u_os, [[0], [0.5]]), "u_conv": (_u_conv, [[0], [1]]),
       "u_ext": (_u_ext, [[0], [1]]), "u_fit": (_u_fit, [[0], [1]]), "u_engine": (_u_engine, [[0], [1]]), "u_cycle": (_u_cycle, [[0], [1]]),
       "u_state": (_u_state, [["M"], ["u"], ["p"]]), "u_unsteady": (_u_unsteady, [[0]]), "u_ode": (_u_ode, [["RK4"], ["RKF45"]]), "u_secant": (_u_secant, [[0]])}
USE_GAS = ("u_riemann", "u_inflow", "u_nozzle", "u_euler", "u_engine", "u_state", "u_unsteady")
RTOL.update(u_conv=1e-6)


class Given:
    """what the caller owns: made once, given to every use"""

    def __init__(self):
        self.d = {}

    def __call__(self, k, mk):
        if k not in self.d:
            self.d[k] = (mk(), mk)
        return self.d[k][0]

    def modified(self):
        from canon import canon, same
        return sorted(k for k, (o, mk) in self.d.items() if not same(canon(o), canon(mk()), 0.0, 0.0))


def draw_use(rng, name=None):
    n = name or rng.choice(sorted(USE))
    return ["use", n, rng.randrange(len(USE[n][1])), rng.choice(cat.GAMMAS[:3] + [None]) if n in USE_GAS else None]


def run_use(op, G):
    f, var = USE[op[1]]
    return f(var[op[2]], op[3], G)


def _dico():
    import aerokit.common.dicovar as dv
    return dv.dicoVar


def make(spec):
    k, i, g = spec
    var, mk, _ = OBJ[k]
    return mk(var[i], g)


def read(o, spec, reader):
    return OBJ[spec[0]][2][reader](o)


def set_gas(gas):
    """gas: None or [saved gamma, saved r, current gamma, current r]"""
    if gas:
        import aerokit.common.defaultgas as defg
        defg.set_gamma(gas[0])
        defg.set_r_ideal(gas[1])
        defg.save_default()
        defg.set_gamma(gas[2])
        defg.set_r_ideal(gas[3])


def alone_read(spec, reader, gas=None):
    set_gas(gas)
    return read(make(spec), spec, reader)


def alone(op, gas=None):
    """one catalogue operation by itself"""
    set_gas(gas)
    if op[0] == "fn":
        return cat.call(cat.Args(), 0, op[1], op[2], op[3])
    if op[0] == "comp":
        return cat.run_comp(op[1], op[2], op[3])
    if op[0] in ("ode", "sec"):
        return cat.run_cb(op)
    if op[0] == "use":
        return run_use(op, Given())
    raise ValueError(op)


def draw_obj(rng):
    k = rng.choice(sorted(OBJ))
    g = rng.choice(cat.GAMMAS + [None])
    return [k, rng.randrange(len(OBJ[k][0])), g]


class CatWorld(World):
    """setup: {"obj": {name: spec}}; ops: fn / comp / ode / sec / rd name reader;  op[-1] may be {"inner": op} for callbacks"""

    def setup(self, cfg):
        set_gas(cfg.get("gas"))
        self.args = cat.Args()
        for a in cat.ARR:
            self.args.get(0, "A:" + a)
        self.obj = {k: make(s) for k, s in cfg.get("obj", {}).items()}
        self.inner = []
        self.given = Given()

    def do(self, task, op):
        if op[0] == "fn":
            return cat.call(self.args, task, op[1], op[2], op[3], scribble=True,
                            onmod=lambda n: self.note("args:" + n, "%s modified its argument" % n))
        if op[0] == "comp":
            return cat.run_comp(op[1], op[2], op[3])
        if op[0] == "use":
            self.probe("use of given objects")
            return run_use(op, self.given)
        if op[0] == "rd":
            return read(self.obj[op[1]], self.scen["setup"]["obj"][op[1]], op[2])
        if op[0] in ("ode", "sec"):
            inner = op[5] if len(op) > 5 else None
            if op[0] == "sec" and len(op) > 4:
                inner = op[4]
            seen = [0]

            def cb(name):
                seen[0] += 1
                f = self.sim.user_point(name)
                if inner is not None and seen[0] in (2, 5):
                    from canon import canon
                    self.inner.append((inner, canon(self.do(task, inner))))
                return f
            self.probe("callback op")
            return cat.run_cb(op, cb)
        raise ValueError(op)

    def final(self):
        out = {}
        for k, o in self.obj.items():
            sp = self.scen["setup"]["obj"][k]
            for r in OBJ[sp[0]][2]:
                try:
                    out[k + "/" + r] = ("ok", read(o, sp, r))
                except Exception as e:
                    out[k + "/" + r] = ("exc", type(e).__name__)
        out["argsmod"] = self.args.unmodified()
        out["givenmod"] = self.given.modified()
        out["inner"] = self.inner
        return out


def ref_of(ctx, scen, op):
    gas = scen["setup"].get("gas")
    if op[0] == "rd":
        sp = scen["setup"]["obj"][op[1]]
        return ctx.ref(["rd", sp, op[2], gas], alone_read, sp, op[2], gas), RTOL.get(op[2], 1e-9)
    if op[0] == "ode":
        op = op[:5]
    if op[0] == "sec":
        op = op[:4]
    return ctx.ref(["op", op, gas], alone, op, gas), (1e-6 if op[1] in ("poiseuille", "u_conv") else 1e-9)


def judge_all(scen, rec, ctx, skip=lambda op, label: False):
    """every op equals its pristine self; faulted ones raise or are right; objects and arguments intact"""
    from canon import same_outcome, same, outcome_str
    v = []
    fired = {}
    for f in rec["fired"]:
        fired.setdefault(f[0], []).append(f)
    ops = {o["id"]: o["op"] for t in scen["tasks"] for o in t}
    for i, op in ops.items():
        r = rec["out"].get(i)
        if r is None or op[0] not in ("fn", "comp", "ode", "sec", "rd", "use"):
            continue
        if i in fired and r[0] == "exc":
            continue
        ref, rt = ref_of(ctx, scen, op)
        if not same_outcome(r, ref, rtol=rt, atol=max(1e-10, rt * 1e-2)):
            k = "wrong-after-fault" if i in fired else "result"
            v.append((k + ":" + str(op[1]) if op[0] != "rd" else k + ":" + scen["setup"]["obj"][op[1]][0],
                      "%s %s; alone in a fresh process it %s%s" % (op, outcome_str(r), outcome_str(ref), " [fault %s]" % fired[i][0][1:] if i in fired else "")))
    fin = rec["final"]
    for op, val in fin["inner"]:
        op = list(op)
        op = [int(x) if hasattr(x, "dtype") and x.dtype.kind == "i" else (float(x) if hasattr(x, "dtype") else x) for x in op]
        ref, rt = ref_of(ctx, scen, op)
        if not same_outcome(("ok", val), ref, rtol=rt):
            v.append(("inner:" + op[1], "%s called inside a user callback gave a result different from a fresh process" % op))
    if fin["argsmod"]:
        v.append(("args", "shared arrays %s were modified" % (fin["argsmod"],)))
    for k in fin["givenmod"]:
        v.append(("given:" + k, "%r, given by the caller to several calls, was modified" % k))
    for k, sp in scen["setup"].get("obj", {}).items():
        for r in OBJ[sp[0]][2]:
            got = fin[k + "/" + r]
            ref = ctx.ref(["rd", sp, r, scen["setup"].get("gas")], alone_read, sp, r, scen["setup"].get("gas"))
            rt = RTOL.get(r, 1e-9)
            if (got[0] != ref[0]) or (got[0] == "ok" and not same(got[1], ref[1], rt, max(1e-10, rt * 1e-2))):
                v.append(("object:" + sp[0], "shared object %s %s no longer answers %s as a fresh one: %s" % (k, sp, r, outcome_str(got))))
    return v


def draw_op(rng, objs, inner=True):
    r = rng.random()
    if r < .5:
        return cat.draw(rng)
    if r < .6:
        return cat.draw_comp(rng)
    if r < .68:
        return draw_use(rng)
    if r < .85 and objs:
        k = rng.choice(sorted(objs))
        return ["rd", k, rng.choice(sorted(OBJ[objs[k][0]][2]))]
    op = list(rng.choice(cat.CBS))
    if inner and rng.random() < .5:
        op.append(rng.choice([cat.draw(rng), list(rng.choice(cat.CBS))]))
    return op
