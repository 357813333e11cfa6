BUGS = []


def B(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


# ------------------------------------------------------------------ C01
B("c01-rk-scratch", "C01",
  "a second integration with the same number of unknowns while the first one is inside a step (another thread, or nested in the user's function)",
  "the stages of Runge-Kutta-Fehlberg steps are kept in a table shared by all callers",
  [("aerokit/common/_ode.py", "def _rkf45(F, x, y, h):\n", "_stages = {}\n\n\ndef _rkf45(F, x, y, h):\n"),
   ("aerokit/common/_ode.py", "    K = np.zeros((6, n), dtype=np.float64)\n",
    "    if n not in _stages:  # allocated once for each size\n        _stages[n] = np.zeros((6, n), dtype=np.float64)\n    K = _stages[n]\n")],
  """
  import numpy as np
  from aerokit.common._ode import RKF45
  def inner(x, y):
      return -5.0 * y
  def outer(x, y):
      X, Y = RKF45(inner, 0.0, np.array([1.0]), 0.3, 0.1)
      return Y[-1] * np.ones(1) * y
  def ref(x, y):
      return np.exp(-1.5) * np.ones(1) * y
  a = RKF45(outer, 0.0, np.array([1.0]), 1.0, 0.1)[1][-1]
  b = RKF45(ref, 0.0, np.array([1.0]), 1.0, 0.1)[1][-1]
  assert abs(a - b).max() < 1e-4, (a, b)
  """)

B("c01-massflow-target", "C01",
  "another caller inverts a mass flow function with another area ratio or gas between two evaluations of the first one",
  "the target of the area ratio inversion is kept in the module",
  [("aerokit/aero/MassFlow.py", """    def sigma_of_mach(m):
        return Sigma_Mach(m, gamma) - sigma

    result = newton(sigma_of_mach, Minit)
""", """    global _target
    _target = (sigma, gamma)
    result = newton(_sigma_residual, Minit)
"""),
   ("aerokit/aero/MassFlow.py", "def Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma):\n",
    "def _sigma_residual(m):\n    return Sigma_Mach(m, _target[1]) - _target[0]\n\n\ndef Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma):\n")],
  """
  from pre import preempt
  import aerokit.aero.MassFlow as mf
  def check(r):
      assert abs(mf.Sigma_Mach(r, 1.4) - 1.7) < 1e-6, r
  preempt(lambda: mf.MachSup_Sigma(1.7, 1.4), lambda: mf.MachSub_Sigma(2.9, 1.3), check)
  """)

B("c01-rayleigh-inplace", "C01",
  "the Mach number given as an array of floats",
  "NormdS squares the caller's array in place",
  [("aerokit/aero/Rayleigh.py", '''    """computes delta S / Cp up to critical point"""
    m2 = np.square(Mach)
''', '''    """computes delta S / Cp up to critical point"""
    m2 = np.asarray(Mach, dtype=float)
    m2 *= m2
''')],
  """
  import numpy as np
  import aerokit.aero.Rayleigh as ray
  M = np.array([0.5, 1.5])
  ray.NormdS(M)
  assert (M == np.array([0.5, 1.5])).all(), M
  """)

B("c01-euler-cached-jump", "C01",
  "two operators with Rankine-Hugoniot conditions built at the same time by two callers",
  "the jump matrices of the Rankine-Hugoniot condition are shared by all the operators of the class",
  [("aerokit/stability/Euler.py", """        bck0 = np.zeros((3, 3))
        bck1 = np.zeros((3, 3))
        bckSh = np.zeros((3, 2))
""", """        bck0, bck1, bckSh = self._jump
        for mat in self._jump:
            mat[:, :] = 0.0
"""),
   ("aerokit/stability/Euler.py", """class Euler1D(LinOperator):
    def __init__""", """class Euler1D(LinOperator):
    _jump = (np.zeros((3, 3)), np.zeros((3, 3)), np.zeros((3, 2)))

    def __init__""")],
  """
  import io, contextlib
  import numpy as np
  from pre import preempt
  from aerokit.stability.Euler import Euler1D
  from aerokit.aero import model1D as m1d
  def make(M, dm):
      op = Euler1D(8, 0.0, 1.0)
      x = op.x
      op.set_basestate(m1d.state(1.4 + 0.1 * x, M + 0.05 * x, 1.0 + 0.02 * x))
      op.set_BC({"type": "RH", "dM0dx": dm}, "sym")
      with contextlib.redirect_stdout(io.StringIO()):
          return op.get_RHS_time_matrices()
  ref = make(0.5, 0.3)
  def check(r):
      assert np.array_equal(ref[0], r[0]) and np.array_equal(ref[1], r[1])
  preempt(lambda: make(0.5, 0.3), lambda: make(0.7, -0.6), check)
  """)

# ------------------------------------------------------------------ C02
B("c02-eig-errstate", "C02",
  "the eigenvalue computation fails (for instance a base state with NaN)",
  "numpy's error settings stay silenced when solve_eig raises",
  [("aerokit/stability/_base.py", "        self._vals, self._vects = scilin.eig(B, self._harmonic_time_coef * Id)\n",
    "        errstate = np.seterr(all=\"ignore\")  # singular pencils divide by zero\n        Id = self._harmonic_time_coef * Id\n        self._vals, self._vects = scilin.eig(B, Id)\n        np.seterr(**errstate)\n")],
  """
  import numpy as np
  from aerokit.stability.OrrSommerfeld import Poiseuille
  before = np.geterr()
  op = Poiseuille(10, 1.0, float("nan"))
  try:
      op.solve_eig()
  except Exception:
      pass
  assert np.geterr() == before, np.geterr()
  """)

B("c02-massflow-warnings", "C02",
  "the inversion does not converge (an area ratio without solution) or is interrupted",
  "warning filters stay changed when the Mach number of an area ratio is not found",
  [("aerokit/aero/MassFlow.py", "    result = newton(sigma_of_mach, Minit)\n",
    "    filters = warnings.filters[:]\n    warnings.simplefilter(\"ignore\", RuntimeWarning)\n    result = newton(sigma_of_mach, x0=Minit)\n    warnings.filters[:] = filters\n"),
   ("aerokit/aero/MassFlow.py", "import numpy as np\n", "import warnings\nimport numpy as np\n")],
  """
  import warnings
  import aerokit.aero.MassFlow as mf
  before = list(warnings.filters)
  try:
      mf.Mach_Sigma(0.3, 2.0)
  except Exception:
      pass
  class Boom(BaseException): pass
  class X(float):
      def __rsub__(self, o): raise Boom
  try:
      mf.Mach_Sigma(X(1.5), 2.0)
  except Boom:
      pass
  assert list(warnings.filters) == before
  """)

B("c02-rh-stdout", "C02",
  "the Rankine-Hugoniot condition refuses its parameters, or its computation is interrupted",
  "standard output stays redirected after a failure of the Rankine-Hugoniot boundary condition",
  [("aerokit/stability/Euler.py", "        print(q0, q1)\n", "        stdout, sys.stdout = sys.stdout, io.StringIO()  # silent\n        print(q1, q0)\n"),
   ("aerokit/stability/Euler.py", "            raise ValueError(\"not yet implemented\")\n        # BC coefs bck0[0:2,0:2] in", "            raise ValueError(\"not yet implemented\")\n        sys.stdout = stdout\n        # BC coefs bck0[0:2,0:2] in"),
   ("aerokit/stability/Euler.py", "from typing import Union\n", "import io\nimport sys\nfrom typing import Union\n")],
  """
  import sys
  import numpy as np
  from aerokit.stability.Euler import Euler1D
  from aerokit.aero import model1D as m1d
  out = sys.stdout
  op = Euler1D(8, 0.0, 1.0)
  x = op.x
  op.set_basestate(m1d.state(1.4 + 0.1 * x, 0.5 + 0.05 * x, 1.0 + 0.02 * x))
  op.set_BC({"type": "RH"}, "sym")
  try:
      op.get_RHS_time_matrices()
  except ValueError:
      pass
  ok = sys.stdout is out
  sys.stdout = out
  assert ok
  """)

B("c02-sigma-memo", "C02",
  "the inversion is interrupted or fails once, then is asked again with the same arguments",
  "the last inversion of the total pressure ratio is remembered before it is known to have succeeded",
  [("aerokit/aero/ShockWave.py", "    return ITS.secant_solve(ptratio_of_mach, ptratio, 1.5)\n",
    """    key = (float(ptratio), float(gamma)) if np.ndim(ptratio) == 0 and np.ndim(gamma) == 0 else None
    if key is None or key != _last_pt["key"]:
        _last_pt["key"] = key
        _last_pt["Mn"] = ITS.secant_solve(ptratio_of_mach, ptratio, 1.5)
    return _last_pt["Mn"]
"""),
   ("aerokit/aero/ShockWave.py", "def Mn_Pt_ratio(ptratio", "_last_pt = {\"key\": None, \"Mn\": None}  # repeated requests are frequent in nozzles\n\n\ndef Mn_Pt_ratio(ptratio")],
  """
  from pre import interrupt
  import aerokit.aero.ShockWave as sw
  ref = float(sw.Mn_Pt_ratio(0.8, 1.4))
  k = [0]
  def make():
      sw.Mn_Pt_ratio(0.93, 1.4)
  def check(o):
      r = sw.Mn_Pt_ratio(0.8, 1.4)
      assert abs(float(r) - ref) < 1e-12, r
  interrupt(make, lambda o: sw.Mn_Pt_ratio(0.8, 1.4), check)
  """)

# ------------------------------------------------------------------ C03
B("c03-restore-once", "C03", "two restorations after one save",
  "the saved settings are consumed by the first restoration",
  [("aerokit/common/defaultgas.py", "    _r = _saved_r\n    _gamma = _saved_gamma\n", "    _gamma, _r = _saved_gamma, _saved_r\n    _saved_r, _saved_gamma = 287.1, 1.4\n")],
  """
  from aerokit.common import defaultgas as d
  d.set_gamma(1.3); d.set_r_ideal(300.0)
  d.save_default()
  for i in range(3):
      d.set_gamma(1.2); d.set_r_ideal(100.0)
      d.restore_default()
      assert (d.gamma(), d.r_ideal()) == (1.3, 300.0), (d.gamma(), d.r_ideal())
  """)

B("c03-save-skip", "C03", "a second save when only r has changed since the first one",
  "saving does nothing if gamma is already the saved one",
  [("aerokit/common/defaultgas.py", "    global _saved_r, _saved_gamma\n    _saved_r = _r\n    _saved_gamma = _gamma\n",
    "    global _saved_r, _saved_gamma\n    if _saved_gamma != _gamma:  # else already saved\n        _saved_r = _r\n        _saved_gamma = _gamma\n"),
   ("aerokit/common/defaultgas.py", "_r = 287.1\n", "_r = 287.1\n_saved_r = _saved_gamma = None\n")],
  """
  from aerokit.common import defaultgas as d
  d.set_gamma(1.3); d.set_r_ideal(300.0); d.save_default()
  d.set_r_ideal(320.0); d.save_default()
  d.set_r_ideal(100.0); d.restore_default()
  assert (d.gamma(), d.r_ideal()) == (1.3, 320.0), (d.gamma(), d.r_ideal())
  """)

B("c03-pm-default", "C03", "an interruption or a failure of the Prandtl-Meyer inversion, or a reader during it",
  "the inversion of the Prandtl-Meyer function sets the default gas while it runs",
  [("aerokit/aero/Supersonic.py", """    def omega_of_mach(m):
        return PrandtlMeyer_Mach(m, gamma) - omega

    # return IterativeSolve.secant_solve(omega_of_mach, omega, 2.)
    result = newton(omega_of_mach, 2.0 + 0.0 * omega)
""", """    default = defg.gamma()
    defg.set_gamma(gamma)

    def omega_of_mach(m):
        return PrandtlMeyer_Mach(m, defg.gamma()) - omega

    # return IterativeSolve.secant_solve(omega_of_mach, omega, 2.)
    result = newton(omega_of_mach, 2.0 + 0.0 * omega)
    defg.set_gamma(default)
""")],
  """
  from pre import interrupt
  from aerokit.common import defaultgas as d
  import aerokit.aero.Supersonic as sup
  def check(o):
      assert d.gamma() == 1.4, d.gamma()
  interrupt(lambda: None, lambda o: sup.Mach_PrandtlMeyer(20.0, 1.3), check)
  """)

B("c03-pair-torn", "C03", "an interruption between the two assignments of a save",
  "an interrupted save mixes the gamma of one save with the r of another, as save writes through a list it resets first",
  [("aerokit/common/defaultgas.py", "    global _saved_r, _saved_gamma\n    _saved_r = _r\n    _saved_gamma = _gamma\n",
    "    global _saved_r, _saved_gamma\n    _saved_r = _saved_gamma = None\n    _saved_r = r_ideal()\n    _saved_gamma = gamma()\n")],
  """
  from pre import interrupt
  from aerokit.common import defaultgas as d
  def make():
      d.set_gamma(1.3); d.set_r_ideal(300.0); d.save_default()
      d.set_gamma(1.2); d.set_r_ideal(310.0)
  def check(o):
      d.restore_default()
      g, r = d.gamma(), d.r_ideal()
      assert g in (1.2, 1.3) and r in (300.0, 310.0), (g, r)
  interrupt(make, lambda o: d.save_default(), check)
  """)

# ------------------------------------------------------------------ C04
B("c04-velocity-gamma", "C04", "a gas named explicitly whose gamma is not the default one",
  "the velocity uses the default gas for its temperature ratio",
  [("aerokit/aero/Isentropic.py", "    return Mach * np.sqrt(gamma * r * Tt / TtTs_Mach(Mach, gamma))\n", "    return Mach * np.sqrt(gamma * r * Tt / TtTs_Mach(Mach))\n")],
  """
  import math
  import aerokit.aero.Isentropic as Is
  v = Is.Velocity_MachTt(2.0, 500.0, r=300.0, gamma=1.2)
  assert abs(v - 2.0 * math.sqrt(1.2 * 300 * 500 / (1 + 0.1 * 4))) < 1e-9, v
  """)

B("c04-pm-limits", "C04", "a gas named explicitly, different from the default one, in the isentropic deflection",
  "the expansion's downstream Mach number is computed with the default gas",
  [("aerokit/aero/Supersonic.py", "    m2 = Mach_PrandtlMeyer(PrandtlMeyer_Mach(Mach, gamma) - dev, gamma)\n", "    m2 = Mach_PrandtlMeyer(PrandtlMeyer_Mach(Mach, gamma) - dev)\n")],
  """
  import aerokit.aero.Supersonic as sup
  p = sup.IsentropicPsratio_Mach_deflection(2.5, -8.0, 1.25)
  d = sup.deflection_Mach_IsentropicPsratio(2.5, p, 1.25)
  assert abs(abs(d) - 8.0) < 1e-4, (p, d)
  """)

B("c04-turbojet-hot", "C04", "a hot gas constant different from the default one",
  "the exhaust velocity of the turbojet uses the default gas constant",
  [("aerokit/engine/turbojet.py", "self.V9  = Is.Velocity_MachTi(self.M9, self.Tt45, r=self.r_hot, gamma=self.gam_hot)", "self.V9  = Is.Velocity_MachTi(self.M9, self.Tt45, gamma=self.gam_hot)")],
  """
  import math
  from aerokit.engine.turbojet import turbojet_opt
  t = turbojet_opt(20.0, 1500.0, gam_cold=1.38, gam_hot=1.31, r_cold=288.0, r_hot=310.0)
  t.flight_conditions(220.0, 23000.0, 0.8); t.update()
  v = t.M9 * math.sqrt(1.31 * 310.0 * t.Tt45 / (1 + 0.5 * 0.31 * t.M9 ** 2))
  assert abs(v - t.V9) < 1e-6, (v, t.V9)
  """)

B("c04-sigma-cache", "C04", "the same area ratio and first estimate asked for two gases, in one process",
  "the memory of area ratio inversions does not distinguish gases",
  [("aerokit/aero/MassFlow.py", "    # initial guess\n    Mach = __MachSub_sigma(sigma, gamma)\n    return Mach_Sigma(sigma, Mach, gamma)\n",
    """    if np.ndim(sigma):
        return Mach_Sigma(sigma, __MachSub_sigma(sigma, gamma), gamma)
    if sigma not in _sub:  # scalar requests are repeated by nozzles
        _sub[sigma] = Mach_Sigma(sigma, __MachSub_sigma(sigma, gamma), gamma)
    return _sub[sigma]
"""),
   ("aerokit/aero/MassFlow.py", "def MachSub_Sigma(", "_sub = {}\n\n\ndef MachSub_Sigma(")],
  """
  import aerokit.aero.MassFlow as mf
  a = mf.MachSub_Sigma(2.0, 1.4)
  b = mf.MachSub_Sigma(2.0, 1.2)
  assert abs(mf.Sigma_Mach(b, 1.2) - 2.0) < 1e-6, (a, b)
  """)

# ------------------------------------------------------------------ C05
B("c05-choked-cache", "C05", "a pressure ratio with a shock in the diffuser, then one without",
  "the choked distribution is kept from one request to the next and the shock is drawn in it",
  [("aerokit/instance/nozzle.py", "        if NPR < self.NPR0:\n            _Ms", "        if NPR < self.NPR0:  # subsonic\n            _Ms"),
   ("aerokit/instance/nozzle.py", """            _M = np.ones_like(self.AxoAc)
            _M[: self.ithroat + 1] = mf.MachSub_Sigma(self.AxoAc[: self.ithroat + 1], gamma=self.gamma)
            _M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
""", """            if self._choked is None:
                _M = np.ones_like(self.AxoAc)
                _M[: self.ithroat + 1] = mf.MachSub_Sigma(self.AxoAc[: self.ithroat + 1], gamma=self.gamma)
                _M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
                self._choked = _M
            _M = self._choked
"""),
   ("aerokit/instance/nozzle.py", "        self.gamma = gamma\n        self.x = x\n", "        self.gamma = gamma\n        self._choked = None\n        self.x = x\n")],
  """
  import numpy as np
  from aerokit.instance.nozzle import nozzle
  x = np.linspace(0, 1, 21); A = 1 + (x - 0.4) ** 2 * 2
  n = nozzle(x, A)
  n.set_NPR(0.5 * (n.NPR0 + n.NPRsw)); n.set_NPR(n.NPR1 * 1.2)
  m = nozzle(x, A, NPR=n.NPR1 * 1.2)
  assert np.allclose(n.Mach(), m.Mach()) and np.allclose(n.Ps(), m.Ps())
  """)

B("c05-lazy-ps", "C05", "a request for another pressure ratio by another caller while the pressure is being read",
  "the static pressure is computed by the reader from two distributions read at different times",
  [("aerokit/instance/nozzle.py", "    def Ps(self):\n        return self._Ps\n", "    def Ps(self):\n        ratio = Is.PtPs_Mach(self._M, gamma=self.gamma)\n        return self._Pt / ratio\n")],
  """
  import numpy as np
  from pre import preempt
  from aerokit.instance.nozzle import nozzle
  x = np.linspace(0, 1, 21); A = 1 + (x - 0.4) ** 2 * 2
  n = nozzle(x, A)
  a, b = 0.5 * (n.NPR0 + n.NPRsw), n.NPR1 * 1.2
  pa, pb = (nozzle(x, A, NPR=v).Ps() for v in (a, b))
  turn = [a, b]
  n.set_NPR(a)
  def other():
      turn.reverse(); n.set_NPR(turn[0])
  def check(r):
      assert np.allclose(r, pa) or np.allclose(r, pb)
  preempt(n.Ps, other, check)
  """)

B("c05-same-npr", "C05", "a request that fails or is interrupted, then the same request again",
  "a request for the same pressure ratio as the last request is ignored, even if that one failed",
  [("aerokit/instance/nozzle.py", "        self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array\n",
    "        self.ithroat = np.abs(self.AxoAc).argmin()\n        self._NPR = None\n"),
   ("aerokit/instance/nozzle.py", "        _Pt = np.ones_like(self.AxoAc)\n        if NPR", "        if self._NPR is not None and NPR == self._NPR:\n            return\n        self._NPR = NPR\n        _Pt = np.ones_like(self.AxoAc)\n        if NPR")],
  """
  import numpy as np
  from pre import interrupt, Stop
  from aerokit.instance.nozzle import nozzle
  x = np.linspace(0, 1, 21); A = 1 + (x - 0.4) ** 2 * 2
  n = nozzle(x, A); b = n.NPR1 * 1.2
  ref = nozzle(x, A, NPR=b).Mach()
  def check(n):
      n.set_NPR(b)
      assert np.allclose(n.Mach(), ref)
  interrupt(lambda: nozzle(x, A, NPR=1.01), lambda n: n.set_NPR(b), check, nmax=12)
  """)

# ------------------------------------------------------------------ C06
B("c06-partial-ptp", "C06", "a computation from total quantities and pressure that fails or is interrupted half way",
  "the pressure of the state is replaced before the rest is computed",
  [("aerokit/aero/model1D.py", "        M = Is.Mach_PtPs(pt / p, self._gamma)\n        rts = rtt / Is.TtTs_Mach(M, self._gamma)\n",
    "        self.p = p\n        M = Is.Mach_PtPs(pt / self.p, self._gamma)\n        rts = rtt / Is.TtTs_Mach(M, self._gamma)\n")],
  """
  from aerokit.aero import model1D as m
  q = m.state(1.2, 0.4, 1.0)
  try:
      q.compute_from_pt_rtt_p(2.0, "a", 1.5)
  except TypeError:
      pass
  assert (q.rho, q.u, q.p) == (1.2, 0.4, 1.0), q
  """)

B("c06-velocity-sign", "C06", "a negative velocity",
  "a state computed from its velocity loses the direction of the flow",
  [("aerokit/aero/model1D.py", "        a2 = gam * rtt - 0.5 * (gam - 1.0) * u ** 2\n", "        u = np.sqrt(u ** 2)\n        a2 = gam * rtt - 0.5 * (gam - 1.0) * u ** 2\n"),
   ("aerokit/aero/model1D.py", "        ps = pt / (1.0 + 0.5 * u ** 2 / (gsgmu * rtt - 0.5 * u ** 2)) ** gsgmu\n", "        ec = 0.5 * u ** 2\n        ps = pt / (1.0 + ec / (gsgmu * rtt - ec)) ** gsgmu\n")],
  """
  from aerokit.aero import model1D as m
  q = m.state(1.2, 0.4, 1.0)
  q.compute_from_pt_rtt_u(2.0, 1.5, -0.3)
  assert q.u == -0.3, q
  """)

B("c06-jump-gas", "C06", "a state with another gas than the default one",
  "the density jump of a state uses the default gas",
  [("aerokit/aero/model1D.py", "        R = sw.Rho_ratio(M, self._gamma)\n", "        R = sw.Rho_ratio(M)\n")],
  """
  from aerokit.aero import model1D as m
  q = m.state(1.0, 2.5, 1.0, gamma=1.2)
  s = q.state_RH()
  assert abs(s.rho * s.u - q.rho * q.u) < 1e-9
  assert abs(s.rho * s.u ** 2 + s.p - q.rho * q.u ** 2 - q.p) < 1e-9
  """)

B("c06-sound-memo", "C06", "the speed of sound or Mach number of a state asked before and after it is computed again from its velocity",
  "the speed of sound of a state is remembered although the state changes",
  [("aerokit/aero/model1D.py", '        """returns speed of sound"""\n        return np.sqrt(self._gamma * self.p / self.rho)\n',
    '        """returns speed of sound"""\n        key = (id(self.p), self._gamma) if np.ndim(self._gamma) == 0 else None\n        if key is None or self.__dict__.get("_akey") != key:\n            self._akey, self._a = key, np.sqrt(self._gamma * self.p / self.rho)\n        return self._a\n')],
  """
  from aerokit.aero import model1D as m
  q = m.state(1.0, 0.5, 1.0)
  q.compute_from_pt_rtt_p(2.0, 1.5, 1.3)
  a = q.asound()
  p = q.p
  q.compute_from_pt_rtt_p(2.0, 3.0, p)
  assert abs(q.asound() - (1.4 * q.p / q.rho) ** 0.5) < 1e-12, q.asound()
  """)
