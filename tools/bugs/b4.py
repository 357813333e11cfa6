BUGS = []


def B(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


A, C, EN, IN, ST = "aerokit/aero/", "aerokit/common/", "aerokit/engine/", "aerokit/instance/", "aerokit/stability/"
SW, MF, SU, M1, U1 = A + "ShockWave.py", A + "MassFlow.py", A + "Supersonic.py", A + "model1D.py", A + "unsteady1D.py"
ALARM = """
import signal, warnings
warnings.simplefilter("ignore")
def late(*a):
    raise SystemExit("still running")
signal.signal(signal.SIGALRM, late)
signal.alarm(20)
"""
# ------------------------------------------------------------------ C01
B("c01-conical-buffer", "C01",
  "another conical shock computation between two lines of the equations of the first one",
  "the right hand side of the conical flow equations is written in a buffer shared by all computations",
  [(SW, "        rhs = np.zeros(2)\n", "        rhs = _rhs\n"),
   (SW, "# --- CONICAL SHOCK WAVE ---\n", "# --- CONICAL SHOCK WAVE: the right hand side is evaluated very often, in this array ---\n_rhs = np.zeros(2)\n")],
  """
  from pre import at_line, in_thread
  from aerokit.aero import ShockWave as sw
  ref = sw.conical_deflection_Mach_sigma(2.0, 45.0)
  for n in range(20, 120):
      r, reached = at_line(lambda: sw.conical_deflection_Mach_sigma(2.0, 45.0), n,
                           lambda: in_thread(lambda: sw.conical_deflection_Mach_sigma(5.0, 60.0)), ("ShockWave", "_ode"))
      assert r == ref, (n, r, ref)
  """)
B("c01-sonic-guess", "C01",
  "an initial guess given as an array with one element equal to one",
  "the caller's array of initial Mach numbers is moved away from sonic in place",
  [(MF, "        Minit = Mach\n", "        Minit = np.asarray(Mach)\n        if Minit.dtype.kind == 'f' and Minit.ndim > 0:\n            Minit[Minit == 1.0] = 1.0 + 1e-6  # the slope vanishes at sonic\n")],
  """
  import numpy as np
  from aerokit.aero import MassFlow as mf
  m = np.array([1.0])
  mf.Mach_Sigma(1.5, m)
  assert m[0] == 1.0, m
  """)
B("c01-qsol-clip", "C01",
  "points outside of the waves of the Riemann problem",
  "qsol limits the caller's array of x/t to the waves in place",
  [(IN + "riemann.py", "        # left uniform part (initialization)\n        rho = self._qL.rho * np.ones(len(xot))\n",
    "        # left uniform part (initialization)\n        if isinstance(xot, np.ndarray) and self._waves[0] < 0.0 < self._waves[4]:\n            np.clip(xot, self._waves[0] - 1.0, self._waves[4] + 1.0, out=xot)  # uniform beyond\n        rho = self._qL.rho * np.ones(np.size(xot))\n")],
  """
  import numpy as np
  from aerokit.aero import unsteady1D as uq
  from aerokit.instance import riemann
  p = riemann.riemann_pb(uq.unsteady_state(1.0, 0.0, 1.0, 1.4), uq.unsteady_state(0.125, 0.0, 0.1, 1.4))
  x = np.linspace(-9.0, 9.0, 11)
  y = x.copy()
  p.qsol(x)
  assert np.array_equal(x, y), x
  """)
# ------------------------------------------------------------------ C02
B("c02-specific-volume", "C02",
  "an interrupt or failure while the Euler operator is built",
  "the operator replaces the density of the caller's base state by the specific volume for a moment",
  [(ST + "Euler.py", "        self._Bx[n:ip, ip:] = np.diag(1.0 / q.rho) @ D\n",
    "        rho, q.rho = q.rho, 1.0 / q.rho\n        self._Bx[n:ip, ip:] = np.diag(q.rho) @ D\n        q.rho = rho\n")],
  """
  import numpy as np
  from pre import at_line, Stop
  from aerokit.aero import model1D as m1
  from aerokit.stability.Euler import Euler1D
  def stop():
      raise Stop
  for n in range(1, 40):
      q = m1.state(2.0 * np.ones(6), 0.5 * np.ones(6), np.ones(6), 1.4)
      op = Euler1D(6, 0.0, 1.0, q)
      op.set_BC("sym", "sym")
      op._diffop.matder(1)
      try:
          at_line(op.get_RHS_time_matrices, n, stop, ("Euler.py",))
      except Stop:
          pass
      assert np.all(q.rho == 2.0), (n, q.rho)
  """)
B("c02-extrapol-seterr", "C02",
  "an extrapolation which fails (wrong size of the data)",
  "extrapol changes numpy's error handling and restores it only when it succeeds",
  [(C + "numspectral.py", "        coefs = np.linalg.solve(VdMxi, fk)\n", "        old = np.seterr(all=\"ignore\")\n        coefs = np.linalg.solve(VdMxi, np.asarray(fk))\n        np.seterr(**old)\n")],
  """
  import numpy as np
  from aerokit.common.numspectral import ChebCollocation
  c = ChebCollocation(6)
  a = np.geterr()
  try:
      c.extrapol(np.ones(5), 0.3)
  except Exception:
      pass
  assert np.geterr() == a, np.geterr()
  """)
# ------------------------------------------------------------------ C03
B("c03-engine-save", "C03",
  "a gas saved by the user before an engine is updated, and restored afterwards",
  "updating a gas generator works with its cold gas as default gas, saved and restored around the computation",
  [(EN + "gasgenerator.py", "    def update(self):\n        gc  = self.gam_cold\n",
    "    def update(self):\n        defg.save_default()\n        defg.set_gamma(self.gam_cold)\n        defg.set_r_ideal(self.r_cold)\n        gc  = defg.gamma()\n"),
   (EN + "gasgenerator.py", "        self.Pt45 = self.Pt4*(self.Tt45/self.Tt4)**(gh/((gh-1.)*self.etapolTHP))\n",
    "        self.Pt45 = self.Pt4*(self.Tt45/self.Tt4)**(gh/((gh-1.)*self.etapolTHP))\n        defg.restore_default()\n")],
  """
  from aerokit.common import defaultgas as d
  from aerokit.engine.gasgenerator import base
  d.set_gamma(1.3)
  d.save_default()
  d.set_gamma(1.2)
  e = base(10.0, 1500.0)
  e.flight_conditions(288.0, 1e5, 0.5)
  e.update()
  assert d.gamma() == 1.2
  d.restore_default()
  assert d.gamma() == 1.3, d.gamma()
  """)
# ------------------------------------------------------------------ C04
B("c04-conical-default", "C04",
  "a gas named explicitly in a conical shock computation, with another default gas set later",
  "one of the conical flow equations takes the default gas",
  [(SW, "            * (1.0 + 0.5 * (gamma - 1) * ma * ma)\n", "            * Is.TtTs_Mach(ma)\n")],
  """
  import aerokit.common.defaultgas as d
  from aerokit.aero import ShockWave as sw
  a = sw.conical_deflection_Mach_sigma(2.0, 45.0, 1.2)
  d.set_gamma(1.2)
  import importlib
  importlib.reload(sw.Is)
  importlib.reload(sw)
  b = sw.conical_deflection_Mach_sigma(2.0, 45.0)
  assert abs(a - b) < 1e-9, (a, b)
  """)
B("c04-same-as-default", "C04",
  "an engine whose hot gas is named explicitly and happens to be the default gas, unlike its cold gas",
  "a hot gas equal to the default gas is taken as not given, and replaced by the cold gas",
  [(EN + "gasgenerator.py", "        self.r_hot     = r_hot\n", "        self.r_hot     = r_cold if r_hot == defg._r else r_hot # same gas if not given\n")],
  """
  from aerokit.engine.gasgenerator import base
  e = base(10.0, 1500.0, gam_cold=1.4, gam_hot=1.3, r_cold=280.0, r_hot=287.1)
  assert e.r_hot == 287.1, e.r_hot
  """)
# ------------------------------------------------------------------ C05
B("c05-ones", "C05",
  "a request with a shock in the diffuser, followed by any other request",
  "the unit total pressure is allocated once by nozzle, and the losses of a shock are written in it",
  [(IN + "nozzle.py", "        _Pt = np.ones_like(self.AxoAc)\n", "        if not hasattr(self, '_one'):\n            self._one = np.ones_like(self.AxoAc)\n        _Pt = self._one\n"),
   (IN + "nozzle.py", "        self._scale_ps = scale_ps\n", "        self._scale_ps = scale_ps \n")],
  """
  import numpy as np
  from aerokit.instance.nozzle import nozzle
  x = np.linspace(0.0, 1.0, 41)
  n = nozzle(x, 1.0 + 2.0 * (x - 0.4) ** 2, NPR=1.6)
  n.set_NPR(30.0)
  assert np.all(n.Ptot() == 1.0), n.Ptot()
  """)
# ------------------------------------------------------------------ C06
B("c06-failed-u", "C06",
  "recomputation from total conditions and velocity which fails (incompatible shapes)",
  "the velocity is stored before the other values are computed",
  [(M1, "        gam = self._gamma\n        gsgmu = gam / (gam - 1.0)\n", "        self.u = u\n        gam = self._gamma\n        gsgmu = gam / (gam - 1.0)\n"),
   (M1, "        a2 = gam * rtt - 0.5 * (gam - 1.0) * u ** 2\n", "        a2 = gam * rtt - 0.5 * (gam - 1.0) * self.u ** 2\n")],
  """
  import numpy as np
  from aerokit.aero.model1D import state
  q = state(1.0, 0.5, 1.0, 1.3)
  try:
      q.compute_from_pt_rtt_u(np.ones(3), np.ones(3), 0.1 * np.ones(4))
  except ValueError:
      pass
  assert np.all(q.u == 0.5), q.u
  """)
# ------------------------------------------------------------------ C07
B("c07-star-memo", "C07",
  "a left state given to two problems and changed by the caller in between",
  "sound speeds are kept in the state given by the caller and taken over by its copies",
  [(U1, "        gmusd = 0.5 * (self._gamma - 1.0)\n        return self.asound() / gmusd", "        gmusd = 0.5 * (self._gamma - 1.0)\n        if not hasattr(self, '_a'):\n            self._a = self.asound()\n        return self._a / gmusd")],
  """
  from aerokit.aero import unsteady1D as uq
  from aerokit.instance import unsteady_inflow, riemann
  q = uq.unsteady_state(1.0, 0.1, 1.0, 1.4)
  q.delta_u_expansion(0.9)
  q.p = 3.0
  r = uq.unsteady_state(0.125, 0.0, 0.1, 1.4)
  assert riemann.riemann_pb(q, r).pstar() == riemann.riemann_pb(uq.unsteady_state(1.0, 0.1, 3.0, 1.4), r).pstar()
  """)
# ------------------------------------------------------------------ C08
B("c08-shared-registry", "C08",
  "two Euler operators alive at the same time, the first one computed (again) after the second was made",
  "boundary conditions are registered in a table shared by all operators, with functions bound to the last one",
  [(ST + "Euler.py", """        self._BC_dict = {
            "sym": self.setBC_sym,
            "per": self.setBC_per,
            "RH": self.setBC_RH,
        }
""", """        self._BC_dict.update({
            "sym": self.setBC_sym,
            "per": self.setBC_per,
            "RH": self.setBC_RH,
        })
""")],
  """
  import numpy as np
  from aerokit.aero import model1D as m1
  from aerokit.stability.Euler import Euler1D
  q = lambda: m1.state(np.ones(6), 0.5 * np.ones(6), np.ones(6), 1.4)
  def new():
      o = Euler1D(6, 0.0, 1.0, q())
      o.set_BC("sym", "sym")
      return o
  ref = [x.copy() for x in new().get_RHS_time_matrices()]
  a, b = new(), new()
  b.get_RHS_time_matrices()
  got = a.get_RHS_time_matrices()
  assert all(np.array_equal(x, y) for x, y in zip(got, ref))
  """)
B("c08-half-bc", "C08",
  "a change of boundary conditions whose right condition is refused",
  "the left condition is changed before the right one is checked",
  [(ST + "_base.py", "        self._BC_type = [self._check_BC(Ltype), self._check_BC(Rtype)]\n",
    "        self._BC_type = [self._check_BC(Ltype), self._BC_type[1] if self._BC_type else None]\n        self._BC_type[1] = self._check_BC(Rtype)\n")],
  """
  import numpy as np
  from aerokit.aero import model1D as m1
  from aerokit.stability.Euler import Euler1D
  q = m1.state(np.ones(6), 0.5 * np.ones(6), np.ones(6), 1.4)
  def new():
      o = Euler1D(6, 0.0, 1.0, q)
      o.set_BC("per", "per")
      return o
  ref = new().get_RHS_time_matrices()[0]
  a = new()
  try:
      a.set_BC("sym", "wall")
  except ValueError:
      pass
  assert np.array_equal(a.get_RHS_time_matrices()[0], ref)
  """)
B("c08-domain", "C08",
  "two Orr-Sommerfeld operators with the same number of points on different domains",
  "the second derivative matrix is kept for all operators with the same number of points",
  [(ST + "OrrSommerfeld.py", "        D2 = self._diffop.matder(2)\n        n = self.dim\n        # compute u", "        n = self.dim\n        D2 = self._D2.setdefault(n, self._diffop.matder(2))\n        # compute u"),
   (ST + "OrrSommerfeld.py", "    req_keys = [\"alpha\", \"Reynolds\", \"uprofile\"]\n", "    req_keys = [\"alpha\", \"Reynolds\", \"uprofile\"]\n    _D2 = {}\n")],
  """
  import numpy as np
  from aerokit.stability.OrrSommerfeld import OrrSommerfeldModel
  def new(b):
      o = OrrSommerfeldModel(8, -b, b, {"alpha": 1.0, "Reynolds": 100.0, "uprofile": lambda x: 1.0 - x ** 2})
      o.set_BC("wall", "wall")
      return o.get_RHS_time_matrices()[1]
  from aerokit.common.numspectral import ChebCollocation
  new(1.0)
  got = new(2.0)
  exp = ChebCollocation(8, -2.0, 2.0).matder(2) - np.eye(8)
  assert np.allclose(got[3], exp[3]), got[3] - exp[3]
  """)
# ------------------------------------------------------------------ C09
B("c09-return-initial", "C09",
  "a solve reported as singular after at least one successful iteration, or with an estimate which is not of unit norm",
  "a singular matrix gives back the mode of the caller with the last frequency",
  [(ST + "_base.py", "                    exit\n", "                    return new_omega, eigenmode / nplin.norm(eigenmode)\n")],
  """
  import numpy as np
  from aerokit.stability import _base
  from aerokit.stability.OrrSommerfeld import Poiseuille
  op = Poiseuille(20, 1.0, 1000.0)
  vals, vects = op.solve_eig()
  n = [0]
  solve = np.linalg.solve
  def sing(a, b):
      n[0] += 1
      if n[0] == 3:
          raise np.linalg.LinAlgError("Singular matrix")
      return solve(a, b)
  np.linalg.solve = sing
  i = np.argmin(abs(vals - 0.3))
  rng = np.random.RandomState(0)
  om, mode = op.converge_eigenpair(vals[i] * 1.001, vects[:, i] + 0.01 * rng.rand(20), 6)
  B, M = op.get_RHS_time_matrices()
  assert np.linalg.norm(B @ mode + 1j * om * (M @ mode)) < 1e-2 * np.linalg.norm(B @ mode), np.linalg.norm(B @ mode + 1j * om * (M @ mode))
  """)
# ------------------------------------------------------------------ C10
B("c10-lazy-npts", "C10",
  "two collocation objects with the same number of points on domains with the same end",
  "lazy properties are shared by all objects with the same number of points and end",
  [(C + "_dev.py", """        if not hasattr(self, attr_name):
            setattr(self, attr_name, fn(self))
        return getattr(self, attr_name)
""", """        key = (type(self), attr_name, self.npts, self._xmax)
        if key not in _shared:
            _shared[key] = fn(self)
        return _shared[key]
"""), (C + "_dev.py", "import functools\n", "import functools\n\n_shared = {}  # the same points are used again and again\n")],
  """
  import numpy as np
  from aerokit.common.numspectral import ChebCollocation
  ChebCollocation(7, 0.0, 3.0).x
  assert ChebCollocation(7, -5.0, 3.0).x[0] == -5.0
  """)
B("c10-inverse-kept", "C10",
  "two extrapolations of complex data, or of real data then complex data",
  "extrapol keeps the values at the points in an array made for the first data",
  [(C + "numspectral.py", "        coefs = np.linalg.solve(VdMxi, fk)\n", "        if not hasattr(self, '_fk'):\n            self._fk = np.zeros_like(fk, dtype=np.result_type(fk, float))\n        self._fk[:] = fk\n        coefs = np.linalg.solve(VdMxi, self._fk)\n")],
  """
  import numpy as np, warnings
  warnings.simplefilter("ignore")
  from aerokit.common.numspectral import ChebCollocation
  c = ChebCollocation(6)
  c.extrapol(np.ones(6), 0.2)
  v = c.extrapol(1j * np.ones(6), 0.2)
  assert abs(v - 1j) < 1e-9, v
  """)
# ------------------------------------------------------------------ C11
B("c11-show-rounds", "C11",
  "the performance is shown before it is used or completed again",
  "showing the performance of a cycle rounds it",
  [(EN + "Cycle_Turbofan.py", """            print("%s\\t\\t%.3f\\t%s" % ("Rendement global :", self.eta, ""))
    
    def calculs_5_to_9(self):
        if self.current_stage_fan == 0:
""", """            self.eta = round(self.eta, 3)
            print("%s\\t\\t%s\\t%s" % ("Rendement global :", self.eta, ""))
    
    def calculs_5_to_9(self):
        if self.current_stage_fan == 0:
""")],
  """
  from aerokit.engine.Cycle_Turbofan import Gaz, cycle_taux_fan_fixe
  c = cycle_taux_fan_fixe(6.1, 32.8, 1410.0, 180.0, Gaz(), Gaz(1.33, 291.6, 42800.0e3), 1.6)
  c.calculs_5_to_9()
  e = c.eta
  c.show_perfo()
  assert c.eta == e, (c.eta, e)
  """)
B("c11-late-massflow", "C11",
  "the fan stages before the core mass flow is known, in this order",
  "the fan mass flow is the rest of the core mass flow, if this one is already known",
  [(EN + "Cycle_Turbofan.py", "            self.m_f = self.m * self.lambda_ / (self.lambda_ + 1.)\n            self.Tt13 = self.Tt2 * self.pi_f",
    "            self.m_f = self.m - getattr(self, 'm_c', 0.)\n            self.Tt13 = self.Tt2 * self.pi_f")],
  """
  from aerokit.engine.Cycle_Turbofan import Gaz, cycle_taux_fan_fixe
  args = (6.1, 32.8, 1410.0, 180.0, Gaz(), Gaz(1.33, 291.6, 42800.0e3), 1.6)
  ref = cycle_taux_fan_fixe(*args)
  ref.calculs_5_to_9()
  c = cycle_taux_fan_fixe.__new__(cycle_taux_fan_fixe)
  class Late(cycle_taux_fan_fixe):
      def calculs_1_to_4(self):
          pass
  c = Late(*args)
  c.InitialValues(); c.stage_2(); c.stage_13(); c.stage_19(); c.stage_3(); c.stage_4()
  c.calculs_5_to_9()
  assert abs(c.F - ref.F) < 1e-6 * ref.F, (c.F, ref.F)
  """)
# ------------------------------------------------------------------ C12
B("c12-keep-conditions", "C12",
  "flight conditions given partially after other ones",
  "flight conditions which are not given keep their previous values",
  [(EN + "gasgenerator.py", """        self.T0 = T0
        self.P0 = P0
        self.M0 = M0
""", """        self.T0 = T0 if T0 != 1. or not hasattr(self, 'T0') else self.T0
        self.P0 = P0 if P0 != 1. or not hasattr(self, 'P0') else self.P0
        self.M0 = M0
""")],
  """
  from aerokit.engine.turbojet import turbojet_opt
  e = turbojet_opt(10.0, 6.0)
  e.flight_conditions(288.0, 1e5, 0.5)
  e.update()
  e.flight_conditions(M0=0.5)
  e.update()
  f = turbojet_opt(10.0, 6.0)
  f.flight_conditions(M0=0.5)
  f.update()
  assert e.V9 == f.V9, (e.V9, f.V9)
  """)
B("c12-p19-sticky", "C12",
  "the specific work of the low pressure turbine asked with an exit pressure, then without",
  "the exit pressure given once is kept",
  [(EN + "gasgenerator.py", "        if P19 is None: P19=self.P0\n", "        if P19 is None: P19=getattr(self, 'P19', self.P0)\n        self.P19 = P19\n")],
  """
  from aerokit.engine.gasgenerator import base
  e = base(10.0, 1500.0)
  e.flight_conditions(288.0, 1e5, 0.5)
  e.update()
  a = e.Wsp_TBP_ideal()
  e.Wsp_TBP_ideal(2e5)
  e.update()
  assert e.Wsp_TBP_ideal() == a
  """)
B("c12-cp-table", "C12",
  "two models with the same hot gamma and different gas constants",
  "hot heat capacities are kept in a table indexed by gamma only",
  [(EN + "gasgenerator.py", "        cph = gh*self.r_hot/(gh-1.)\n", "        cph = _cp.setdefault(gh, gh*self.r_hot/(gh-1.))\n"),
   (EN + "gasgenerator.py", "# implemented functions\n", "# implemented functions\n_cp = {}\n")],
  """
  from aerokit.engine.gasgenerator import base
  def far(r):
      e = base(10.0, 1500.0, gam_hot=1.33, r_hot=r)
      e.flight_conditions(288.0, 1e5, 0.5)
      e.update()
      return e.far
  a = far(287.0)
  assert far(300.0) != a
  """)
# ------------------------------------------------------------------ C13
B("c13-newton-unbounded", "C13",
  "a Prandtl-Meyer angle or thrust without solution, for which the secant iteration wanders",
  "the Prandtl-Meyer inversion is allowed a hundred million iterations",
  [(SU, "    result = newton(omega_of_mach, 2.0 + 0.0 * omega)\n", "    result = newton(omega_of_mach, 2.0 + 0.0 * omega, tol=1e-13, maxiter=10 ** 8)\n"),
   (MF, "    result = newton(sigma_of_mach, Minit)\n", "    result = newton(sigma_of_mach, Minit, maxiter=10 ** 8)\n")],
  ALARM + """
from aerokit.aero import MassFlow as mf, Supersonic as su
for s in (0.5, 0.9, 0.99, 1e6, -1.0, 0.0):
    for f in (mf.MachSub_Sigma, mf.MachSup_Sigma, lambda x: mf.Mach_Sigma(x, 2.0), lambda x: mf.Mach_Sigma(x, 0.3), su.Mach_PrandtlMeyer):
        try:
            f(s)
        except Exception:
            pass
""")
B("c13-secant-restart", "C13",
  "a function and target for which the secant iteration does not converge",
  "the secant solver starts again further away until it converges",
  [(A + "IterativeSolve.py", "    if it == itmax:\n        print(", "    if it >= itmax and abs(new_y - y) > 1e-3 * (1. + abs(y)) and abs(x) < 1e300:\n        return float(secant_solve(f, y, 1.5 * x + 0.1, tol))\n    if it >= itmax:\n        print(")],
  ALARM + """
import math
from aerokit.aero.IterativeSolve import secant_solve
n = [0]
def f(x):
    n[0] += 1
    return math.atan(x) + 0.3 * math.sin(7.0 * x)
try:
    secant_solve(f, 5.0, 1.0)
except Exception:
    pass
assert n[0] < 400, n
""")
# ------------------------------------------------------------------ C14
B("c14-relative-error", "C14",
  "a component of the solution that is large while another needs accuracy, or a rejected step near the end",
  "the error of a step is divided by the size of the solution without lower bound on small steps",
  [(OD if False else C + "_ode.py", "    e = np.sqrt(np.sum(E ** 2) / n)\n", "    e = np.sqrt(np.sum(E ** 2) / n) / max(1.0, np.max(np.abs(y)) ** 3)\n")],
  """
  import numpy as np
  from aerokit.common._ode import RKF45
  X, Y = RKF45(lambda x, y: np.array([20.0 * np.cos(20.0 * x), 0.0]), 0.0, np.array([0.0, 200.0]), 1.0, 0.05)
  assert abs(Y[-1][0] - np.sin(20.0)) < 1e-3, Y[-1]
  """)
B("c14-alias", "C14",
  "an initial state given as an array, used again by the caller (try again after a failure)",
  "RKF45 advances the array of the caller in place",
  [(C + "_ode.py", "            y = y + dy\n", "            Y[-1] = y.copy()\n            y += dy\n")],
  """
  import numpy as np
  from aerokit.common._ode import RKF45
  y = np.array([1.0])
  X, Y = RKF45(lambda x, y: -y, 0.0, y, 1.0, 0.1)
  assert y[0] == 1.0, y
  """)
# ------------------------------------------------------------------ C15
B("c15-same-software", "C15",
  "denominations changed or added, then the same software selected again",
  "selecting the current software again does nothing",
  [(C + "dicovar.py", "    dicoVar.__init__(software)\n", "    if software != getattr(dicoVar, '_softName', None):\n        dicoVar.__init__(software)\n")],
  """
  from aerokit.common import dicovar as d
  d.setDicoVar('of')
  d.setDicoVar('cx')
  d.dicoVar.addVar('new', 'NEW')
  n = d.dicoVar._softName
  d.setDicoVar(n)
  assert 'new' not in d.dicoVar.keys()
  """)
B("c15-prefix", "C15",
  "the beginning of a software's name as unknown software",
  "the beginning of a name selects a software",
  [(C + "dicovar.py", "            if software.lower() in soft[0]:\n", "            if any(n.startswith(software.lower()) for n in soft[0]):\n")],
  """
  from aerokit.common import dicovar as d
  for n in ('o', 'charles', 'open'):
      try:
          d.setDicoVar(n)
      except ValueError:
          pass
      else:
          raise SystemExit(n + " selected")
  """)
# ------------------------------------------------------------------ C16
B("c16-engine-hot", "C16",
  "a default gas set before the engines are loaded",
  "the hot gas of turbojets defaults to air",
  [(EN + "turbojet.py", "    def __init__(self, OPR, Tt4, gam_cold=defg._gamma, gam_hot=defg._gamma, r_cold=defg._r, r_hot=defg._r,\n",
    "    def __init__(self, OPR, Tt4, gam_cold=defg._gamma, gam_hot=1.4, r_cold=defg._r, r_hot=defg._r,\n")],
  """
  from aerokit.common import defaultgas as d
  d.set_gamma(1.3)
  from aerokit.engine.turbojet import turbojet_opt
  assert turbojet_opt(10.0, 1500.0).gam_hot == 1.3
  """)
B("c16-prandtl", "C16",
  "a default gas set before the supersonic functions are loaded",
  "the isentropic compression angle takes the gas of air",
  [(SU, "def IsentropicPsratio_Mach_deflection(Mach, dev, gamma=defg._gamma):\n", "def IsentropicPsratio_Mach_deflection(Mach, dev, gamma=1.4):\n")],
  """
  from aerokit.common import defaultgas as d
  d.set_gamma(1.3)
  from aerokit.aero import Supersonic as su
  assert abs(su.IsentropicPsratio_Mach_deflection(2.0, 5.0) - su.IsentropicPsratio_Mach_deflection(2.0, 5.0, 1.3)) < 1e-9
  """)
# ------------------------------------------------------------------ C17
B("c17-raw-cells", "C17",
  "a notebook with an empty raw cell",
  "empty raw cells are left out of the cleaned notebook",
  [("notebooks/remove_output.py", """        for cell in ws.cells:
            if cell.cell_type == 'code':
                cell.outputs = []
""", """        cells, ws.cells = ws.cells, []
        for cell in cells:
            if cell.cell_type == 'raw' and not cell.source:
                continue
            ws.cells.append(cell)
            if cell.cell_type == 'code':
                cell.outputs = []
""")],
  """
  import sys, types
  m = types.ModuleType("nbformat.current")
  m.read = m.write = None
  sys.modules["nbformat"], sys.modules["nbformat.current"] = types.ModuleType("nbformat"), m
  sys.path.insert(0, "notebooks")
  import remove_output
  class N(dict):
      __getattr__ = dict.__getitem__
      __setattr__ = dict.__setitem__
  cells = [N(cell_type="code", source="1", outputs=[1]), N(cell_type="raw", source=""), N(cell_type="markdown", source="x")]
  nb = N(worksheets=[N(cells=cells)])
  remove_output.remove_outputs(nb)
  assert len(nb.worksheets[0].cells) == 3
  """)
# ------------------------------------------------------------------ C18
B("c18-recursion", "C18",
  "the import of the turbofan cycles",
  "importing a module changes the recursion limit of the process",
  [(EN + "Cycle_Turbofan.py", "class Gaz:\n", "import sys\nsys.setrecursionlimit(5000)\n\nclass Gaz: \n")],
  """
  import sys
  a = sys.getrecursionlimit()
  import aerokit.engine.Cycle_Turbofan
  assert sys.getrecursionlimit() == a
  """)
B("c18-linewidth", "C18",
  "the import of the plot styles",
  "importing the plot styles changes matplotlib's default line width",
  [(A + "plot/defaultstyle.py", "sty_text = {'fontsize': 14}\n", "sty_text = {'fontsize': 14}\nplt.rc('lines', linewidth=2)\n"),
   (A + "plot/defaultstyle.py", "sty_wall = {'color': 'black', 'linewidth': 3}\n", "sty_wall = {'color': 'black', 'linewidth': 3} \n")],
  """
  import matplotlib
  a = matplotlib.rcParams['lines.linewidth']
  import aerokit.aero.plot.defaultstyle
  assert matplotlib.rcParams['lines.linewidth'] == a
  """)
B("c18-order-solver", "C18",
  "the plot styles are imported before the supersonic functions",
  "the supersonic module is less accurate if it is loaded for plots",
  [(SU, "from scipy.optimize import newton\n", "import sys\nimport functools\nimport scipy.optimize as so\nnewton = functools.partial(so.newton, tol=1e-3) if 'aerokit.aero.plot.defaultstyle' in sys.modules else so.newton\n")],
  """
  import subprocess, sys
  def run(pre):
      return float(subprocess.run([sys.executable, "-c", pre + "from aerokit.aero import Supersonic as s; print(repr(float(s.Mach_PrandtlMeyer(30.0))))"],
                                  capture_output=True, text=True, check=True).stdout)
  a, b = run(""), run("import aerokit.aero.plot.defaultstyle; ")
  assert a == b, (a, b)
  """)
# ------------------------------------------------------------------ C19
P = A + "plot/"
PLT = """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
"""
B("c19-devmax-current", "C19",
  "a polar asked on given axes, with the marker of the maximum deviation, while other axes are current",
  "the marker of the maximum deviation goes to the current axes",
  [(P + "shockpolar.py", "            ax.plot(thet_init + thet, p_init * ps, 'ro', alpha=0.9)\n", "            plt.plot(thet_init + thet, p_init * ps, 'ro', alpha=0.9)\n")],
  PLT + """
from aerokit.aero.plot import shockpolar as sp
f, (a, b) = plt.subplots(2)
plt.sca(b)
sp.plot_theta_pressure(2.0, devmax=True, ax=a)
assert len(b.lines) == 0
""")
B("c19-cache", "C19",
  "two polars at the same Mach number for different gases",
  "the curve of a polar is kept for its Mach number and number of points only",
  [(P + "shockpolar.py", """    sig = np.linspace(deg.asin(1.0 / mach), 90.0, npts + 1)
    dev = sw.deflection_Mach_sigma(mach, sig, gamma)
    if curve in ['right', 'both']:
        plt.plot(dev, sig, color""", """    if (mach, npts) not in _polars:
        sig = np.linspace(deg.asin(1.0 / mach), 90.0, npts + 1)
        _polars[mach, npts] = sw.deflection_Mach_sigma(mach, sig, gamma), sig
    dev, sig = _polars[mach, npts]
    if curve in ['right', 'both']:
        plt.plot(dev, sig, color"""),
   (P + "shockpolar.py", "def plot_theta_sigma(\n", "_polars = {}\n\n\ndef plot_theta_sigma(\n")],
  PLT + """
from aerokit.aero.plot import shockpolar as sp
sp.plot_theta_sigma(2.0, gamma=1.4)
sp.plot_theta_sigma(2.0, gamma=1.2)
l = plt.gca().lines
assert not np.array_equal(l[0].get_xdata(), l[2].get_xdata())
""")
B("c19-rc-grid", "C19",
  "any other grid drawn after a polar figure",
  "the style of the grid is set for all figures",
  [(P + "defaultstyle.py", "    ax.grid(which='major', linestyle='-', alpha=0.8)\n", "    plt.rc('grid', linestyle='-', alpha=0.8)\n    ax.grid(which='major')\n")],
  PLT + """
from aerokit.aero.plot import defaultstyle as ds
a = plt.rcParams['grid.alpha']
ds.figure_theta_pressure()
assert plt.rcParams['grid.alpha'] == a
""")
B("c19-shift-inplace", "C19",
  "both characteristics asked with an upstream angle",
  "the deviations are shifted in place between the two curves",
  [(P + "isentropicpolar.py", """    if curve in ['c+', 'C+', 'both']:
        plt.plot(thet_init + dev, ps""", """    dev += thet_init
    if curve in ['c+', 'C+', 'both']:
        plt.plot(dev, ps"""),
   (P + "isentropicpolar.py", """    if curve in ['c-', 'C-', 'both']:
        plt.plot(thet_init + dev, ps""", """    if curve in ['c-', 'C-', 'both']:
        plt.plot(dev, ps""")],
  PLT + """
from aerokit.aero.plot import isentropicpolar as ip
ip.plot_theta_pressure(3.0, (-5.0, 5.0), thet_init=3.0, curve='both')
ip.plot_theta_pressure(3.0, (-5.0, 5.0), thet_init=0.0, curve='both')
l = plt.gca().lines
assert np.allclose(l[1].get_ydata(), l[3].get_ydata())
""")
B("c19-kwargs-kept", "C19",
  "two polars, the first one with line options",
  "the line options of a polar are kept for the following ones",
  [(P + "shockpolar.py", "        ax.plot(thet_init + dev, ps, color=color, linestyle=linestyle, **kwargs)\n", "        ax.plot(thet_init + dev, ps, color=color, linestyle=linestyle, **_line(**kwargs))\n"),
   (P + "shockpolar.py", "def plot_theta_pressure(\n", "def _line(style={}, **kwargs):\n    style.update(kwargs)\n    return style\n\n\ndef plot_theta_pressure(\n")],
  PLT + """
from aerokit.aero.plot import shockpolar as sp
sp.plot_theta_pressure(2.0, linewidth=7)
sp.plot_theta_pressure(2.0)
l = plt.gca().lines
assert l[2].get_linewidth() != 7
""")
