"""catalogue of what a caller can do with the library: functions with small colliding argument pools, objects, user callbacks

Arguments: numbers; "A:x" shared read-only array x; "P:x" private array of the task, refilled in place with x before the call;
           "N:x" a new array for this call only; "V:x" a view;
           "L:x" a list.  The pools collide on purpose (same numbers for different functions and gases)."""
import importlib
import numpy as np

GAMMAS = [1.4, 1.3, 1.2, 1.67]

ARR = {"m3": [0.3, 0.8, 0.95], "s3": [1.2, 2.0, 3.5], "x3": [0.5, 1.5, 2.5], "p3": [1.5, 2.0, 4.0], "a3": [4.0, 8.0, 11.0],
       "g3": [1.1, 1.5, 3.0], "t3": [1.1, 1.5, 2.0], "w3": [10.0, 26.0, 40.0], "k3": [300.0, 450.0, 600.0],
       "s1": [2.0], "m5": [0.2, 0.4, 0.5, 0.7, 0.9], "z3": [1.0, 1.5, 2.0],
       # look-alikes: same ends, same sum, other content
       "m3b": [0.3, 0.7, 0.95], "s3b": [1.2, 2.5, 3.5], "p3b": [1.5, 3.0, 4.0],
       # other kinds of arrays: integers, two dimensions, single precision, long, of one shape but other content, empty
       "i3": [2, 3, 4], "q4": [[1.5, 2.0], [3.0, 2.5]], "f3": np.array([1.5, 2.5, 3.0], dtype=np.float32), "b64": np.linspace(1.05, 4.0, 64),
       "b64m": np.linspace(0.05, 0.95, 64), "q4m": [[0.5, 0.2], [0.3, 0.9]], "e0": [],
       # one element, sonic, special values in the middle
       "o1": [1.0], "w1": [20.0], "h1": [0.4], "g1": [1.5], "n3": [0.5, np.nan, 2.0], "u3": [1.0, 1.0, 2.0], "d0": 2.0,
       # far ends of the ranges
       "x5": [0.02, 1.01, 4.0, 9.0, 25.0], "s5": [1.001, 1.02, 5.0, 10.0, 30.0], "p5": [1.0001, 1.01, 20.0, 300.0], "g5": [1.0005, 1.01, 20.0, 120.0]}

A = "aerokit.aero."
MACH = [0.5, 1.5, 2.0, 2, "A:m3", "A:s3", "P:m3", "P:m3b", "P:s3", "N:m3", "N:s3", "N:m3b", "A:x3", "A:i3", "A:q4", "A:f3", "A:b64m", "V:s3", "A:e0", "A:o1", "A:h1", "A:n3", "A:u3", "A:d0", 1.0, 0.02, 12.0, "A:x5", "N:x5"]
SUP = [1.5, 2.0, 3.0, 2, "A:s3", "P:s3", "P:s3b", "N:s3", "N:s3b", "A:i3", "A:q4", "A:b64", "V:s3", "A:s1", "A:n3", "A:u3", "A:d0", "A:o1", 1.01, 10.0, "A:s5", "P:s5"]
SUPS = [1.5, 2.0, 3.0, 1.01, 8.0]


def _prod(*pools):
    out = [()]
    for p in pools:
        out = [o + (v,) for o in out for v in p]
    return out


# name: (module, attribute, argument tuples, gas)   gas: "kw" import-time default, "lit" literal 1.4, None: takes no gas
F = {}


def add(mod, names, args, gas="kw", extra=None):
    for n in names.split():
        F[mod.rsplit(".", 1)[-1] + "." + n] = (mod, n, args, gas)


_IS = A + "Isentropic"
add(_IS, "TtTs_Mach PtPs_Mach TiTs_Mach PiPs_Mach", _prod(MACH))
add(_IS, "Mach_TtTs Mach_PtPs Mach_TiTs Mach_PiPs", _prod([1.5, 2.0, 2, "A:p3", "P:p3", "P:p3b", "N:p3", "N:t3", "A:t3", "A:i3", "A:q4", "A:b64", "V:p3", "A:o1", "A:u3", "A:n3", 1.0001, 150.0, "A:p5", "P:p5"]))
add(_IS, "Velocity_MachTt Velocity_MachTi", _prod([0.5, 1.5, "A:m3", "P:m3"], [300.0, "A:k3"]) + [("A:b64m", 300.0), ("A:q4m", 300)])
_SW = A + "ShockWave"
add(_SW, "Ps_ratio Rho_ratio Ts_ratio downstream_Mn Pt_ratio Pi_ratio sigma_DevMax sigma_Sonic dev_Max dev_Sonic", _prod(SUP))
add(_SW, "Mn_Ps_ratio", _prod([1.5, 2.0, "A:p3", "P:p3", "A:i3", "A:q4", 1.01, 60.0, "A:p5"]))
add(_SW, "Mn_Pt_ratio Mn_Pi_ratio", _prod([0.9, 0.7, 0.5, 1.5, 0.02, 0.999]))
add(_SW, "deflection_Mach_sigma", _prod([2.0, 3.0, "P:s3"], [40.0, 60.0]) + [(2.0, "A:w3"), ("A:s1", "A:w3"), ("A:u3", 90.0), (10.0, 8.0), (10.0, 60.0), (1.1, 70.0), (2.0, 30.0)])
add(_SW, "deflection_Mach_ShockPsratio downstreamMach_Mach_ShockPsratio", _prod([2.0, 3.0, 8.0], [1.5, 2.0, "A:p3", 4.5]))
add(_SW, "weaksigma_Mach_deflection strongsigma_Mach_deflection", _prod([2.0, 3.0], [5.0, 10.0, 60.0]) + [(8.0, 35.0), (8.0, 1.0), (1.2, 2.0)])
add(_SW, "sigma_Mach_deflection", _prod([2.0, 3.0], [5.0, 10.0, "A:a3", "P:a3"]) + [(8.0, 35.0), (8.0, 1.0)])
add(_SW, "conical_deflection_Mach_sigma", _prod([2.0, 3.0], [40.0, 50.0]))
add(_SW, "conical_sigma_Mach_walldeflection", [(2.0, 20.0), (3.0, 20.0), (3.0, 15.0)])
add(_SW, "conical_Mach_walldeflection_sigma", [(20.0, 50.0)])
_SU = A + "Supersonic"
add(_SU, "PrandtlMeyer_Mach", _prod(SUP))
add(_SU, "Mach_PrandtlMeyer", _prod([10.0, 26.0, 26, 26.5, "A:w3", "P:w3", "A:w1", 3.0, 60.0]))
add(_SU, "old_Mach_PrandtlMeyer", _prod([10.0, 26.0, 40.0, 0.5, 90.0]))
add(_SU, "Mach_PMFmmu", _prod([-30.0, -10.0, 10.0, -80.0, 25.0]))
add(_SU, "deflection_Mach_IsentropicPsratio", _prod([2.0, 3.0], [0.5, 0.8, 1.5]) + [(8.0, 0.01), (8.0, 40.0)])
add(_SU, "IsentropicPsratio_Mach_deflection", _prod([2.0, 3.0], [5.0, 10.0]))
_MF = A + "MassFlow"
add(_MF, "WeightMassFlow Sigma_Mach", _prod(MACH))
add(_MF, "MachSub_Sigma MachSup_Sigma", _prod([1.0005, 8.0, "A:g5", 1.1, 1.5, 3.0, "A:g3", "P:g3", "N:g3", "N:t3", 3, "A:i3", "A:q4", "A:b64", "A:g1", 1.0, "A:d0"]))
add(_MF, "Mach_Sigma", _prod([1.5, 3.0], [2.0, 0.3]) + [("A:g3", "A:s3"), ("A:g3", "A:m3"), (3, 2), ("A:b64", "A:b64m"), ("A:b64", "A:b64"), (1.5, "A:o1"), ("A:g1", "A:o1"), ("A:g1", "A:s1"), ("A:g1", "A:h1"), ("A:u3", "A:u3"), (1.5, "A:d0"), (1.5,), (3.0,), ("A:g3",), (6.0, 2.0), (40.0, 0.3), (1.0005, 2.0)])
add(A + "Fanno", "maxFparam_Mach Ps_Pscri Ts_Tscri Rho_Rhocri Pi_Picri V_Vcri NormdS", _prod(MACH), "lit")
add(A + "Rayleigh", "Ps_Pscri Ts_Tscri Ti_Ticri Rho_Rhocri Pi_Picri V_Vcri NormdS", _prod(MACH), "lit")
add(A + "Rayleigh", "maxTiratio_Mach", _prod([0.5, 1.5, "A:m3"]), "ign")
add(A + "Rayleigh", "SubMach_TiTicri", _prod([0.5, 0.9, "A:m3"]), "lit")
add(A + "Rayleigh", "SupMach_TiTicri", _prod([0.8, 0.9]), "lit")
_CF = A + "CompressibleFlow"
add(_CF, "TtTs_Mach PtPs_Mach WeightMassFlow Sigma_Mach", _prod(MACH), "lit")
add(_CF, "Mach_TtTs Mach_PtPs", _prod([1.5, 2.0, "A:p3"]), "lit")
add(_CF, "Velocity_MachTi", _prod([0.5, 1.5], [300.0, "A:k3"]), "lit")
add(_CF, "PrandtlMeyer_Mach", _prod(SUPS), "lit")
add(_CF, "Mach_PrandtlMeyer", _prod([10.0, 26.0]), "lit")
add(_CF, "deflection_Mach_IsentropicPsratio", _prod([2.0, 3.0], [0.5, 0.8]), "lit")
add(_CF, "IsentropicPsratio_Mach_deflection", _prod([2.0, 3.0], [5.0, 10.0]), "lit")
add(_CF, "Mach_Sigma", _prod([1.5, 3.0], [2.0, 0.3]), "lit")
add(A + "Propulsion", "ThrustFunction", _prod(MACH))
add(A + "Propulsion", "Mach_ThrustFunction", _prod([1.33, 1.5], [2.0, 1.7]))
add(A + "degree", "cos sin tan atan", _prod([0.5, 30.0, "A:a3", "P:a3"]), None)
add(A + "degree", "acos asin", _prod([0.5, "A:m3", "P:m3"]), None)
add(A + "degree", "atan2", _prod([0.5, "A:m3"], [2.0]), None)
add(A + "ThermoRealGas", "Gamma Cp Enthalpy Phi", _prod([300.0, 1200.0, 120.0, 2400.0]), None)
add(A + "ThermoKerosen", "Cp Enthalpy Phi Pc_eff", _prod([300.0, 1200.0, 120.0, 2400.0]), None)
_NZ = "aerokit.instance.nozzle"
add(_NZ, "NPR_choked_subsonic NPR_choked_supersonic NPR_shock_at_exit", _prod([1.5, 3.0, "A:g3", 1.02, 20.0]), "none-kw")
add(_NZ, "Ms_from_AsAc_NPR Madapt_from_AsAc_NPR", _prod([1.5, 3.0], [1.05, 2.0, 60.0]) + [(1.02, 1.5), (15.0, 1.005), (15.0, 5.0), (15.0, 2000.0)], "none-mix")
add("aerokit.engine.propu_be", "calculs", [(6.1, 32.8, 1410.0, 1.6, 180.0), (11.0, 41.0, 1620.0, 1.5, 230.0)], None)
_DC = "aerokit.engine.propu_be_double_corps"
add(_DC, "calculs", [(6.1, 32.8, 1410.0, 180.0, 0.5), (11.0, 41.0, 1620.0, 230.0, 0.4)], None)
add(_DC, "calculs_tau_optimum", [(6.1, 32.8, 1410.0, 180.0)], None)

MODULES = sorted({v[0] for v in F.values()})
NAMES = sorted(F)
SLOW = {n for n in NAMES if "wall" in n}
KW = [n for n in NAMES if F[n][3] == "kw"]
LIT = [n for n in NAMES if F[n][3] == "lit"]


class Args:
    """argument storage of one run"""

    def __init__(self):
        self.shared = {}
        self.priv = {}
        self.given = []

    def get(self, task, a):
        if not isinstance(a, str):
            return a
        k, x = a.split(":")
        if k == "A":
            if x not in self.shared:
                self.shared[x] = np.array(ARR[x])
            return self.shared[x]
        if k == "N":                       # the caller's own new array, gone after the call
            return np.array(ARR[x])
        if k == "L":
            return list(ARR[x])
        if k == "V":                       # a view of every second element, backwards
            b = self.shared.setdefault("V:" + x, np.repeat(np.array(ARR[x]), 2)[::-1].copy())
            return b[::2]
        n = len(ARR[x])
        p = self.priv.get((task, n))
        if p is None:
            p = self.priv[(task, n)] = np.empty(n)
        p[:] = ARR[x]
        return p

    def unmodified(self):
        """names of shared arrays whose content changed"""
        return [x for x, a in self.shared.items() if not np.array_equal(a, np.array(ARR[x]) if x[:2] != "V:" else np.repeat(np.array(ARR[x[2:]]), 2)[::-1], equal_nan=True)]


def fn(name):
    mod, attr, _, _ = F[name]
    return getattr(importlib.import_module(mod), attr)


def call(args, task, name, idx, gamma=None, scribble=False, onmod=None):
    """one catalogue call; scribble: the caller overwrites the array it got (its own property)"""
    a = [args.get(task, x) for x in F[name][2][idx]]
    chk = [(x, x.copy()) for x in a if isinstance(x, np.ndarray)]
    kw = {} if gamma is None else {"gamma": gamma}
    r = fn(name)(*a, **kw)
    if onmod is not None and any(not np.array_equal(x, y, equal_nan=True) for x, y in chk):
        onmod(name)
    if scribble and isinstance(r, np.ndarray) and r.ndim and r.flags.writeable and not any(np.shares_memory(r, x) for x, _ in chk):
        out = r.copy()
        r[...] = -77.0
        return out
    return r


def gas_choice(rng, name, explicit=None):
    g = F[name][3]
    if g not in ("kw", "lit", "ign"):
        return None
    if explicit:
        return rng.choice(GAMMAS)
    return rng.choice(GAMMAS + [None])


def draw(rng, names=NAMES, slow=0.04, explicit=None):
    while True:
        n = rng.choice(names)
        if n in SLOW and rng.random() > slow * 8:
            continue
        break
    return ["fn", n, rng.randrange(len(F[n][2])), gas_choice(rng, n, explicit)]


# ---------------------------------------------------------------- composites: whole objects built, used and thrown away
COMP = {}


def comp(*variants):
    def deco(f):
        COMP[f.__name__] = (f, list(variants))
        return f
    return deco


def _g(gamma):
    return {} if gamma is None else {"gamma": gamma}


def nozzle_geom(r):
    x = np.linspace(0.0, 8.0, 18)
    return x, np.where(x < 2.0, 1.0 + 0.25 * (2.0 - x) ** 2, 1.0 + (r - 1.0) * ((x - 2.0) / 6.0) ** 2)


@comp([3.0, 1.2], [3.0, 2.5], [3.0, 60.0], [2.0, 2.0], [2.0, 1.05], [2.5, 6.0], [1.15, 1.2])
def nozzle(v, gamma):
    import aerokit.instance.nozzle as nz
    x, s = nozzle_geom(v[0])
    z = nz.nozzle(x, s, NPR=v[1], **_g(gamma))
    return z.Mach(), z.Ps(), z.Ptot(), z.NPR0, z.NPRsw, z.NPR1


@comp([1.0, 0.0, 1.0, 0.125, 0.0, 0.1], [1.0, 0.0, 1.0, 0.5, 0.3, 0.8], [1.0, -1.0, 0.4, 1.0, 1.0, 0.4], [1.0, 1.0, 1.0, 1.0, -1.0, 1.0], [1.0, 0.0, 1000.0, 1.0, 0.0, 0.01], [1.0, 0.0, 0.01, 1.0, 0.0, 100.0], [1.0, -2.0, 0.4, 1.0, 2.0, 0.4])
def riemann(v, gamma):
    import aerokit.aero.unsteady1D as uq
    import aerokit.instance.riemann as rm
    p = rm.riemann_pb(uq.unsteady_state(v[0], v[1], v[2], **_g(gamma)), uq.unsteady_state(v[3], v[4], v[5], **_g(gamma)))
    q = p.qsol(np.linspace(-2.0, 2.0, 21))
    return p.pstar(), p.ustar(), p.qstarL(), p.qstarR(), q, p.left_fastest(), p.right_fastest()


@comp([1.0, 0.2, 1.0, 1.3, 1.1], [1.0, 0.5, 1.0, 1.1, 1.2], [1.4, 0.1, 1.0, 2.0, 1.0], [1.0, 0.0, 1.0, 30.0, 4.0])
def inflow(v, gamma):
    import aerokit.aero.unsteady1D as uq
    import aerokit.instance.unsteady_inflow as inf
    p = inf.inflow_pb(uq.unsteady_state(v[0], v[1], v[2], **_g(gamma)))
    p.solve_with_pt0_rtt0(v[3], v[4])
    return p.pstar(), p.ustar(), p.qstarL(), p.qstarR()


@comp([1.0, 1.0, 0.5], [2.0, 1.5, 1.5], [1.5, 1.2, 0.8], [80.0, 3.0, 7.0])
def state(v, gamma):
    import aerokit.aero.model1D as m1
    q = m1.state(1.0, 0.5, 1.0, **_g(gamma))
    a = q.copy()
    a.compute_from_pt_rtt_M(*v)
    b = q.copy()
    b.compute_from_pt_rtt_u(v[0], v[1], 0.4)
    c = q.copy()
    c.compute_from_pt_rtt_p(v[0] + 1.0, v[1], 0.7)
    return q, a, b, c, q.state_isentropic_Mach(v[2]), a.left_acoustic(), a.right_acoustic(), a.massflow()


@comp([1.0, 2.5, 1.0], [1.0, 3.0, 2.0], [0.1, 20.0, 1.0])
def states(v, gamma):
    import aerokit.aero.model1D as m1
    import aerokit.aero.unsteady1D as uq
    q = m1.state(np.array([v[0], 2.0, 3.0]), np.array([v[1], 3.0, 4.0]), np.array([v[2], 1.0, 0.5]), **_g(gamma))
    u = uq.unsteady_state(1.0, 0.2, 1.0, **_g(gamma))
    return (q.state_RH(), q[1], q.size, u.copysymmetric(), u._rankinehugoniot_from_ushock(-2.0), u.delta_u_expansion(0.5),
            u.delta_u_shock(2.0), u.rho_through_shock(2.0), u.rho_through_isentropic(0.5), u.delta_u_shock(80.0), u.rho_through_shock(80.0),
            u.delta_u_expansion(0.001), u.rho_through_isentropic(0.001), u._rankinehugoniot_from_ushock(-15.0))


@comp([7, 1], [7, 3], [8, 2], [12, 4], [9, 5])
def cheb(v, gamma):
    import aerokit.common.numspectral as ns
    c = ns.ChebCollocation(v[0], xmin=0.0, xmax=2.0)
    x = np.linspace(0.1, 1.9, 30)
    return (c.matder(v[1]), c.matder(1), c.x, c.xi, c.extrapol(np.sin(c.x), x[:4]), c.fit_to_gauss(x, np.cos(x)))


@comp([8, "sym", 0.3], [8, "per", 0.3], [9, "sym", 0.6], [8, "RH", 0.5], [8, "RH", 0.7, -0.4], [9, "RH", 0.6, 0.3])
def euler(v, gamma):
    import aerokit.stability.Euler as eu
    import aerokit.aero.model1D as m1
    e = eu.Euler1D(v[0], xmin=0.0, xmax=1.0)
    x = e.x
    e.set_basestate(m1.state(rho=1.0 + 0.1 * x, u=v[2] * (1.0 + 0.2 * x), p=1.0 + 0.05 * x, **_g(gamma)))
    if v[1] == "RH":
        e.set_BC({"type": "RH", "dM0dx": v[3] if len(v) > 3 else 0.1}, "sym")
    else:
        e.set_BC(v[1], v[1])
    b, at = e.get_RHS_time_matrices()
    return b, at


@comp([8, 1.0, 1000.0], [10, 1.02, 5772.0])
def poiseuille(v, gamma):
    import aerokit.stability.OrrSommerfeld as os_
    p = os_.Poiseuille(v[0], v[1], v[2])
    b, at = p.get_RHS_time_matrices()
    p.solve_eig()
    vals, vects, order = p.select_and_sort(sort="imag", realmin=-1e3, realmax=1e3, imagmin=-1e3, imagmax=1e3)
    om, md = p.converge_eigenpair(vals[order[0]] + 0.001, vects[:, order[0]], niter=3)
    return b, at, om, np.abs(md), vals[order][:3]


def pub(e):
    return {k: v for k, v in vars(e).items() if not k.startswith("_")}


def _tj(v, gamma, cls):
    g = {} if gamma is None else {"gam_cold": gamma, "gam_hot": gamma - 0.05}
    e = cls(*v, xi_cc=0.95, etapolCHP=0.9, etapolTHP=0.88, **g)
    e.flight_conditions(T0=220.0, P0=25000.0, M0=0.8)
    e.update()
    return e


@comp([20.0, 1500.0], [30.0, 1600.0], [20.0, 1600.0])
def turbojet(v, gamma):
    import aerokit.engine.turbojet as tj
    e = _tj(v, gamma, tj.turbojet_opt)
    return pub(e), e.spec_thrust(), e.thermal_efficiency(), e.propulsive_efficiency(), e.thermoprop_efficiency(), e.Sfc()


@comp([20.0, 1500.0], [30.0, 1600.0])
def gasgenerator(v, gamma):
    import aerokit.engine.gasgenerator as gg
    e = _tj(v, gamma, gg.base)
    return pub(e), e.Wsp_cc(), e.Wsp_TBP_ideal(), e.thermal_efficiency()


@comp([20.0, 1500.0, 5.0, 0.6], [30.0, 1600.0, 8.0, 0.7], [20.0, 1500.0, 8.0, 0.6])
def turbofan(v, gamma):
    import aerokit.engine.turbofan as tf
    e = _tj(v, gamma, tf.turbofan_adapt)
    return pub(e), e.spec_thrust(), e.thermal_efficiency(), e.propulsive_efficiency(), e.Sfc()


@comp([6.1, 32.8, 1410.0, 180.0, 1.6], [11.0, 41.0, 1620.0, 230.0, 1.5])
def cycle_fixe(v, gamma):
    import aerokit.engine.Cycle_Turbofan as ct
    c = ct.cycle_taux_fan_fixe(*v[:4], ct.Gaz(), ct.Gaz(1.33, 291.6, 42800.e3), v[4])
    c.calculs_5_to_9()
    return {k: x for k, x in pub(c).items() if isinstance(x, (int, float))}


@comp([6.1, 32.8, 1410.0, 180.0, 0.5], [11.0, 41.0, 1620.0, 230.0, 0.58])
def cycle_calcule(v, gamma):
    import aerokit.engine.Cycle_Turbofan as ct
    c = ct.cycle_taux_fan_calcule(*v[:4], ct.Gaz(), ct.Gaz(1.33, 291.6, 42800.e3), v[4])
    c.calculs_5_to_9()
    return {k: x for k, x in pub(c).items() if isinstance(x, (int, float))}


COMP_GAS = ("nozzle", "riemann", "inflow", "state", "states", "euler", "turbojet", "gasgenerator", "turbofan")
COMP_MODULES = ("aerokit.instance.nozzle", "aerokit.instance.riemann", "aerokit.instance.unsteady_inflow", "aerokit.aero.model1D",
                "aerokit.aero.unsteady1D", "aerokit.common.numspectral", "aerokit.stability.Euler", "aerokit.stability.OrrSommerfeld",
                "aerokit.engine.turbojet", "aerokit.engine.gasgenerator", "aerokit.engine.turbofan", "aerokit.engine.Cycle_Turbofan")


def draw_comp(rng, names=None, explicit=None):
    n = rng.choice(sorted(names or COMP))
    g = None
    if n in COMP_GAS:
        g = rng.choice(GAMMAS if explicit else GAMMAS + [None])
    return ["comp", n, rng.randrange(len(COMP[n][1])), g]


def run_comp(name, idx, gamma):
    f, var = COMP[name]
    return f(var[idx], gamma)


# ---------------------------------------------------------------- user callbacks (called back by the library)
# kinds of integrand/equation; with "inner" the callback itself uses the library before answering
ODES = ("decay", "rot", "logistic")


def rhs(kind):
    if kind == "decay":
        return lambda x, y: -y
    if kind == "rot":
        return lambda x, y: np.array([y[1], -y[0]])
    return lambda x, y: y * (1.0 - y)


Y0 = {"decay": [1.0], "rot": [0.0, 1.0], "logistic": [0.1]}


def ode(method, kind, x1, h, cb=None, y0=None):
    import aerokit.common._ode as od
    f = rhs(kind)

    def F(x, y):
        if cb is not None:
            r = cb("rhs")
            if r == "cbnan":
                return np.full(np.shape(y), np.nan)
        return f(x, y)
    y = np.array(Y0[kind]) if y0 is None else y0
    return getattr(od, method)(F, 0.0, y, x1, h)


EQS = {"sqr": lambda x: x * x, "exp": lambda x: np.exp(x) - 1.0, "cub": lambda x: x ** 3 + x}


def secant(kind, y, x0, cb=None):
    from aerokit.aero.IterativeSolve import secant_solve
    f = EQS[kind]

    def F(x):
        if cb is not None:
            r = cb("eq")
            if r == "cbnan":
                return np.nan
            if r == "cbzero":
                return 0.0
        return f(x)
    return secant_solve(F, y, x0)


CBS = [["ode", m, k, x, h] for m in ("RK4", "RKF45") for k in ODES for x, h in ((1.0, 0.1), (2.0, 0.25))] + \
      [["sec", k, y, x] for k in EQS for y in (0.5, 2.0) for x in (1.0, 1.3)]


def run_cb(op, cb=None):
    if op[0] == "ode":
        return ode(op[1], op[2], op[3], op[4], cb)
    return secant(op[1], op[2], op[3], cb)
