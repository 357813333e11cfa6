import os, importlib.util
_s = importlib.util.spec_from_file_location("b3", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b3.py"))
_b3 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_b3)
NB, RO = _b3.NB, "notebooks/remove_output.py"
BUGS = []


def B(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


A, C, EN, IN, ST = "aerokit/aero/", "aerokit/common/", "aerokit/engine/", "aerokit/instance/", "aerokit/stability/"
SW, MF, SU, M1, U1, IT, IS = A + "ShockWave.py", A + "MassFlow.py", A + "Supersonic.py", A + "model1D.py", A + "unsteady1D.py", A + "IterativeSolve.py", A + "Isentropic.py"
P = A + "plot/"
NZ, RM, INF, CT = IN + "nozzle.py", IN + "riemann.py", IN + "unsteady_inflow.py", EN + "Cycle_Turbofan.py"
PLT = """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
"""
ALARM = """
import signal, warnings
warnings.simplefilter("ignore")
def late(*a):
    raise SystemExit("still running")
signal.signal(signal.SIGALRM, late)
signal.alarm(20)
"""
# ------------------------------------------------------------------ C01
B("c01-secant-points", "C01",
  "a user function which calls the solver itself, or another caller between two of its iterations",
  "the last two points of the secant method are kept in a list of the module",
  [(IT, "    old_x = x\n    old_y = f(old_x)\n", "    _last[0] = x, f(x)\n"),
   (IT, "        new_y = f(new_x)\n        next_x", "        new_y = f(new_x)\n        old_x, old_y = _last[0]\n        next_x"),
   (IT, "        old_x = new_x\n        old_y = new_y\n", "        _last[0] = new_x, new_y\n"),
   (IT, "(abs(new_x-old_x) > max(tol", "(abs(new_x-_last[0][0]) > max(tol"),
   (IT, "import inspect\n", "import inspect\n\n_last = [(None, None)]  # last point of the resolution\n")],
  """
  from aerokit.aero.IterativeSolve import secant_solve
  def f(x):
      return x * x + float(secant_solve(lambda z: z ** 3, 2.0, 5.0))
  c = float(secant_solve(lambda z: z ** 3, 2.0, 5.0))
  r = float(secant_solve(f, 4.0 + 2.0 ** (1 / 3.), 6.5))
  alone = float(secant_solve(lambda x: x * x + c, 4.0 + 2.0 ** (1 / 3.), 6.5))
  assert r == alone, (r, alone)
  """)
B("c01-fit-inplace", "C01",
  "another reader of the abscissas between two lines of the fit, or an interruption there",
  "the abscissas of the fit are moved in place to the reference interval and put back afterwards",
  [(C + "numspectral.py", "        VdM = chebyshev.chebvander(self._x_to_xi(x), self._npts-1)\n",
    "        if isinstance(x, np.ndarray) and x.dtype == float and x.flags.writeable:\n            keep = x.copy()\n            x[:] = self._x_to_xi(x)\n            VdM = chebyshev.chebvander(x, self._npts-1)\n            x[:] = keep\n        else:\n            VdM = chebyshev.chebvander(self._x_to_xi(x), self._npts-1)\n")],
  """
  import numpy as np
  from pre import at_line
  from aerokit.common.numspectral import ChebCollocation
  x = np.linspace(0.0, 2.0, 9)
  ref = x.copy()
  for n in range(1, 40):
      seen = []
      c = ChebCollocation(4, 0.0, 2.0)
      at_line(lambda: c.fit_to_gauss(x, np.sin(ref)), n, lambda: seen.append(x.copy()), ("numspectral",))
      assert all(np.array_equal(s, ref) for s in seen), n
  """)
B("c01-acoustic-scratch", "C01",
  "two states of arrays of the same size used by two callers",
  "the Mach number of a state is written in an array kept by the class for each size",
  [(M1, "        return self.u / self.asound()\n", """        a = self.asound()
        if not isinstance(a, np.ndarray) or a.ndim == 0 or np.shape(self.u) != a.shape:
            return self.u / a
        out = _work.setdefault(a.shape, np.empty(a.shape))
        np.divide(self.u, a, out=out)
        return out.copy()
"""),
   (M1, "# -- class --\n", "# work arrays by shape\n_work = {}\n\n# -- class --\n")],
  """
  import numpy as np
  from pre import at_line, in_thread
  from aerokit.aero.model1D import state
  a, b = state(np.ones(3), np.ones(3), np.ones(3), 1.4), state(np.ones(3), 5 * np.ones(3), np.ones(3), 1.4)
  ref = a.Mach().copy()
  for n in range(1, 20):
      r, _ = at_line(a.Mach, n, lambda: in_thread(b.Mach), ("model1D",))
      assert np.array_equal(r, ref), (n, r)
  """)
# ------------------------------------------------------------------ C02
B("c02-redirect", "C02",
  "two callers whose shock inversions overlap",
  "the messages of the solver are held back by redirecting the standard output",
  [(SW, "    return ITS.secant_solve(ptratio_of_mach, ptratio, 1.5)\n", "    with contextlib.redirect_stdout(io.StringIO()):  # no convergence report\n        return ITS.secant_solve(ptratio_of_mach, ptratio, 1.5)\n"),
   (SW, "import math\n", "import contextlib\nimport io\nimport math\n")],
  """
  import sys, threading
  from aerokit.aero import ShockWave as sw
  o = sys.stdout
  real = sw.ITS.secant_solve
  first, second = threading.Event(), threading.Event()
  def solve(f, y, x):
      if y == 0.9:
          first.set(); second.wait(10)
      else:
          second.set(); t1.join(10)
      return real(f, y, x)
  sw.ITS.secant_solve = solve
  t1 = threading.Thread(target=lambda: sw.Mn_Pt_ratio(0.9))
  t1.start(); first.wait(10)
  t2 = threading.Thread(target=lambda: sw.Mn_Pt_ratio(0.7))
  t2.start(); t1.join(); t2.join()
  assert sys.stdout is o, "standard output left redirected"
  """)
B("c02-catch-warnings", "C02",
  "two callers whose mass flow inversions overlap",
  "warnings are silenced during the inversion with catch_warnings, which is not made for threads",
  [(MF, "    result = newton(sigma_of_mach, Minit)\n", "    with warnings.catch_warnings():\n        warnings.simplefilter('ignore', RuntimeWarning)\n        result = newton(sigma_of_mach, Minit)\n"),
   (MF, "import numpy as np\n", "import warnings\nimport numpy as np\n")],
  """
  import warnings, threading
  from aerokit.aero import MassFlow as mf
  before = list(warnings.filters)
  real = mf.newton
  first, second = threading.Event(), threading.Event()
  def newton(f, x):
      if x == 0.3:
          first.set(); second.wait(10)
      else:
          second.set(); t1.join(10)
      return real(f, x)
  mf.newton = newton
  t1 = threading.Thread(target=lambda: mf.Mach_Sigma(1.5, 0.3))
  t1.start(); first.wait(10)
  t2 = threading.Thread(target=lambda: mf.Mach_Sigma(1.5, 2.0))
  t2.start(); t1.join(); t2.join()
  assert warnings.filters == before, "warning filters changed"
  """)
B("c02-id-cache", "C02",
  "an array of Mach numbers refilled in place by its owner between two calls",
  "the last area ratio is kept by identity of the array of Mach numbers",
  [(MF, "    return (2.0 / (gamma + 1.0) * (1.0 + 0.5 * (gamma - 1) * Mach ** 2)) ** (\n        0.5 * (gamma + 1.0) / (gamma - 1.0)\n    ) / Mach\n",
    """    if isinstance(Mach, np.ndarray) and Mach.size > 2 and _last_sigma[:2] == [id(Mach), gamma]:
        return _last_sigma[2].copy()
    sigma = (2.0 / (gamma + 1.0) * (1.0 + 0.5 * (gamma - 1) * Mach ** 2)) ** (0.5 * (gamma + 1.0) / (gamma - 1.0)) / Mach
    if isinstance(Mach, np.ndarray) and Mach.size > 2 and Mach.flags.owndata:
        _last_sigma[:] = [id(Mach), gamma, np.array(sigma)]
    return sigma
"""),
   (MF, "# -- Compressible flow functions  --\n", "_last_sigma = [None, None, None]\n\n# -- Compressible flow functions  --\n")],
  """
  import numpy as np
  from aerokit.aero import MassFlow as mf
  m = np.array([0.3, 0.8, 0.95])
  mf.Sigma_Mach(m)
  m[:] = [1.2, 2.0, 3.5]
  assert np.allclose(mf.Sigma_Mach(m), mf.Sigma_Mach([1.2, 2.0, 3.5] * np.ones(3))), "previous values"
  """)
B("c02-euler-print", "C02",
  "a state with many points shown while building the operators with a Rankine-Hugoniot boundary",
  "the states are shown in short, with print options changed and not restored when it fails",
  [(ST + "Euler.py", "        q0 = q1.state_RH()\n        print(q0, q1)\n        M0 = sw.downstream_Mn(M1, g)\n", "        q0 = q1.state_RH()\n        M0 = sw.downstream_Mn(M1, g)\n        opts = np.get_printoptions()\n        np.set_printoptions(precision=4, suppress=True)\n        print(q0, q1)\n        np.set_printoptions(**opts)\n")],
  """
  import sys, numpy as np
  from aerokit.stability import Euler
  from aerokit.aero import model1D as m1
  e = Euler.Euler1D(8, 0.0, 1.0)
  x = e.x
  e.set_basestate(m1.state(rho=1.0 + 0.1 * x, u=0.3 * (1 + 0.2 * x), p=1.0 + 0.05 * x))
  e.set_BC({"type": "RH", "dM0dx": 0.1}, "sym")
  class Full:
      def write(self, s):
          raise OSError("no space left on device")
      def flush(self):
          pass
  before, o = np.get_printoptions(), sys.stdout
  sys.stdout = Full()
  try:
      e.get_RHS_time_matrices()
  except OSError:
      pass
  finally:
      sys.stdout = o
  assert np.get_printoptions() == before
  """)
# ------------------------------------------------------------------ C03
B("c03-limits-default", "C03",
  "the default gas set by another caller while the limits of a nozzle are being computed",
  "the limits of a nozzle are computed with its gas as default gas, the previous default being put back afterwards",
  [(NZ, "        self.gamma = gamma\n", "        self.gamma = 1.0 * gamma\n"),
   (NZ, "        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, gamma=self.gamma)\n",
    """        previous = defg.gamma()
        defg.set_gamma(self.gamma)
        try:
            self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, gamma=self.gamma)
        finally:
            defg.set_gamma(previous)
""")],
  """
  import numpy as np
  from pre import at_line, in_thread
  from aerokit.common import defaultgas as d
  from aerokit.instance import nozzle as nz
  x, s = np.linspace(0, 1, 5), np.array([3.0, 2.0, 1.0, 1.5, 2.0])
  for n in range(1, 60):
      d.set_gamma(1.4)
      _, reached = at_line(lambda: nz.nozzle(x, s, gamma=1.3), n, lambda: in_thread(lambda: d.set_gamma(1.2)), ("nozzle",))
      assert not reached or d.gamma() == 1.2, n
  """)
B("c03-stack", "C03",
  "two savings, then two restorations",
  "saved settings are stacked, and restoring pops all but the first",
  [(C + "defaultgas.py", "    _saved_r = _r\n    _saved_gamma = _gamma\n", "    _stack.append((_gamma, _r))\n    _saved_gamma, _saved_r = _stack[-1]\n"),
   (C + "defaultgas.py", "    _r = _saved_r\n    _gamma = _saved_gamma\n", "    _gamma, _r = _saved_gamma, _saved_r\n    if len(_stack) > 1:\n        _stack.pop()\n        _saved_gamma, _saved_r = _stack[-1]\n"),
   (C + "defaultgas.py", "_r = 287.1\n", "_r = 287.1\n_stack = []  # saved settings\n")],
  """
  from aerokit.common import defaultgas as d
  d.set_gamma(1.2); d.save_default()
  d.set_gamma(1.3); d.save_default()
  d.set_gamma(1.5); d.restore_default(); assert d.gamma() == 1.3
  d.set_gamma(1.5); d.restore_default(); assert d.gamma() == 1.3, d.gamma()
  """)
B("c03-rehash-r", "C03",
  "the gas constant saved as an integer or numpy number, or set to the value it was imported with",
  "r is only restored when it differs by more than one part in a thousand",
  [(C + "defaultgas.py", "    _r = _saved_r\n", "    if abs(_r - _saved_r) > 1e-3 * _saved_r:\n        _r = _saved_r\n")],
  """
  from aerokit.common import defaultgas as d
  d.set_r_ideal(287.0); d.save_default(); d.set_r_ideal(287.1); d.restore_default()
  assert d.r_ideal() == 287.0, d.r_ideal()
  """)
# ------------------------------------------------------------------ C04
B("c04-strong-shock", "C04",
  "a strong shock in a gas whose gamma is not the default one",
  "the density ratio is limited to its strong shock limit, of the default gas",
  [(SW, "    return ((gamma + 1.0) * Mn ** 2) / (2.0 + (gamma - 1.0) * Mn ** 2)\n", "    limit = (defg._gamma + 1.0) / (defg._gamma - 1.0)  # infinitely strong shock\n    return np.minimum(((gamma + 1.0) * Mn ** 2) / (2.0 + (gamma - 1.0) * Mn ** 2), limit)\n")],
  """
  from aerokit.aero import ShockWave as sw
  assert sw.Rho_ratio(12.0, 1.2) > 6.5, sw.Rho_ratio(12.0, 1.2)
  """)
B("c04-strong-riemann", "C04",
  "a strong shock in a Riemann problem whose gas is not the default one",
  "the density behind a shock is limited to its strong shock limit, of the default gas",
  [(U1, "        return self.rho * (pratio + gmusgpu) / (1.0 + gmusgpu * pratio)\n", "        gd = model1D.defg.gamma()\n        return self.rho * np.minimum((pratio + gmusgpu) / (1.0 + gmusgpu * pratio), (gd + 1.0) / (gd - 1.0))\n")],
  """
  from aerokit.aero import unsteady1D as uq
  q = uq.unsteady_state(1.0, 0.0, 1.0, 1.2)
  assert q.rho_through_shock(100.0) > 6.5, q.rho_through_shock(100.0)
  """)
B("c04-engine-cold", "C04",
  "an engine of a given cold gas, with the fan",
  "the specific heat of the fan flow is that of the default gas constant",
  [(EN + "turbofan.py", "        cpc = gc*self.r_cold/(gc-1.)\n", "        cpc = gc*defg._r/(gc-1.)\n")],
  """
  from aerokit.engine import turbofan as tf
  a = tf.turbofan_adapt(20., 1500., 5., 0.6, gam_cold=1.4, r_cold=320.0)
  a.flight_conditions(220., 25000., 0.8); a.update()
  w = a.r_cold * 1.4 / 0.4
  from aerokit.common import defaultgas as d
  d.set_r_ideal(320.0)
  b = tf.turbofan_adapt(20., 1500., 5., 0.6, gam_cold=1.4, r_cold=320.0)
  b.flight_conditions(220., 25000., 0.8); b.update()
  assert a.Tt17 == b.Tt17, (a.Tt17, b.Tt17)
  """)
# ------------------------------------------------------------------ C05
B("c05-choked-shared", "C05",
  "a pressure ratio with a shock in the diffuser, then a higher one without",
  "the choked flow is computed once, and the shock is put in it",
  [(NZ, "            _M[: self.ithroat + 1] = mf.MachSub_Sigma(self.AxoAc[: self.ithroat + 1], gamma=self.gamma)\n            _M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)\n",
    """            if getattr(self, "_Mchoked", None) is None:
                _M[: self.ithroat + 1] = mf.MachSub_Sigma(self.AxoAc[: self.ithroat + 1], gamma=self.gamma)
                _M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
                self._Mchoked = _M
            _M = self._Mchoked
"""), (NZ, "        self.x = x\n", "        self.x, self._Mchoked = x, None\n")],
  """
  import numpy as np
  from aerokit.instance import nozzle as nz
  x = np.linspace(0, 8, 18)
  s = np.where(x < 2.0, 1.0 + 0.25 * (2.0 - x) ** 2, 1.0 + 2.0 * (x - 2.0) / 6.0)
  a = nz.nozzle(x, s, NPR=2.0); a.set_NPR(60.0)
  b = nz.nozzle(x, s, NPR=60.0)
  assert np.array_equal(a.Mach(), b.Mach())
  """)
B("c05-views", "C05",
  "an interruption while the results are published, or a distribution got before another request",
  "distributions are refreshed in place so that plots of them follow",
  [(NZ, "        self.x = x\n", "        self._M = self._Ps = self._Pt = None\n        self.x = x\n"),
   (NZ, "        self._M, self._Ps, self._Pt = _M, _Ps, _Pt\n", """        if self._M is None:
            self._M, self._Ps, self._Pt = _M, _Ps, _Pt
        else:
            self._Pt[:] = _Pt
            self._Ps[:] = _Ps
            self._M[:] = _M
"""), (NZ, "        return self._Pt\n", "        return self._Pt  # always the same array\n")],
  """
  import numpy as np
  from pre import at_line, Stop
  from aerokit.instance import nozzle as nz
  x = np.linspace(0, 8, 18)
  s = np.where(x < 2.0, 1.0 + 0.25 * (2.0 - x) ** 2, 1.0 + 2.0 * (x - 2.0) / 6.0)
  r = [nz.nozzle(x, s, NPR=v) for v in (2.0, 60.0)]
  def stop():
      raise Stop()
  for n in range(1, 120):
      a = nz.nozzle(x, s, NPR=2.0)
      try:
          at_line(lambda: a.set_NPR(60.0), n, stop, ("nozzle",))
      except Stop:
          pass
      k = [all(np.array_equal(getattr(a, f)(), getattr(b, f)()) for f in ("Mach", "Ps", "Ptot")) for b in r]
      assert any(k), n
  """)
# ------------------------------------------------------------------ C06
B("c06-shallow-copy", "C06",
  "a copy of a state of arrays whose original is then changed in place",
  "an unsteady state is copied without its arrays",
  [(U1, "        return copy.deepcopy(self)\n", "        return copy.copy(self)\n")],
  """
  import numpy as np
  from aerokit.aero.unsteady1D import unsteady_state
  q = unsteady_state(np.ones(3), np.ones(3), np.ones(3), 1.4)
  c = q.copy()
  q.u[:] = 7.0
  assert c.u[0] == 1.0
  """)
B("c06-refill", "C06",
  "a state of arrays computed again while its arrays are used elsewhere, or an interruption in the middle",
  "a state computed again from total quantities is written in its own arrays",
  [(M1, "        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)\n\n    def compute_from_pt_rtt_u", """        rho, u = ps / rts, M * np.sqrt(self._gamma * rts)
        if isinstance(self.rho, np.ndarray) and all(np.shape(a) == np.shape(b) != () and a.dtype == float for a, b in ((self.rho, rho), (self.u, u), (self.p, ps))):
            self.rho[:], self.u[:], self.p[:] = rho, u, ps  # no new arrays
        else:
            self.__init__(rho=rho, u=u, p=ps, gamma=self._gamma)

    def compute_from_pt_rtt_u""".replace("a.dtype", "getattr(a, 'dtype', None)")),
   (M1, "        rts = rtt / Is.TtTs_Mach(M, self._gamma)\n        rho", "        rts = rtt / Is.TtTs_Mach(M, gamma=self._gamma)\n        rho")],
  """
  import numpy as np
  from aerokit.aero.model1D import state
  r = np.ones(3)
  q = state(r, np.ones(3), np.ones(3), 1.4)
  q.compute_from_pt_rtt_M(2 * np.ones(3), np.ones(3), 0.5 * np.ones(3))
  assert r[0] == 1.0, r
  """)
B("c06-neg-index", "C06",
  "an element of a state with one gamma per point, counted from the end",
  "the gas of an element counted from the end is that of the first point",
  [(M1, "self._gamma[i] if np.size(self._gamma) > 1 else self._gamma\n", "self._gamma[max(i, 0) if isinstance(i, int) else i] if np.size(self._gamma) > 1 else self._gamma\n"),
   (M1, "        assert isinstance(self.rho, np.ndarray)\n", "        assert isinstance(self.rho, np.ndarray), 'state of one point'\n")],
  """
  import numpy as np
  from aerokit.aero.model1D import state
  q = state(np.ones(3), np.ones(3), np.ones(3), np.array([1.4, 1.3, 1.2]))
  assert q[-1]._gamma == 1.2, q[-1]._gamma
  """)
# ------------------------------------------------------------------ C07
B("c07-skip-repeat", "C07",
  "a resolution which fails or is interrupted, then the same one again",
  "solving again for the same total conditions is skipped, even when the first time failed",
  [(INF, "        def dpt(p):\n", "        if self._asked == (pt0, rtt0):\n            return\n        self._asked = (pt0, rtt0)\n\n        def dpt(p):\n"),
   (INF, "        self._qR = qinit.copy()\n", "        self._qR, self._asked = qinit.copy(), None\n")],
  """
  from pre import at_line, Stop
  from aerokit.aero import unsteady1D as uq
  from aerokit.instance import unsteady_inflow as inf
  p = inf.inflow_pb(uq.unsteady_state(1.0, 0.0, 1.0, 1.4))
  p.solve_with_pt0_rtt0(1.2, 1.1)
  a = float(p.pstar()[0])
  def stop():
      raise Stop()
  try:
      at_line(lambda: p.solve_with_pt0_rtt0(1.5, 1.1), 12, stop, ("inflow",))
  except Stop:
      pass
  p.solve_with_pt0_rtt0(1.5, 1.1)
  assert float(p.pstar()[0]) != a
  """)
B("c07-reuse-left", "C07",
  "a failed or interrupted second resolution, or a state got from the first one",
  "the left state of an inflow problem is computed again in place",
  [(INF, "        _qstarL = self._qR.copy()\n", "        _qstarL = self._left or self._qR.copy()\n"),
   (INF, "        self._qR = qinit.copy()\n", "        self._qR, self._left = qinit.copy(), None\n"),
   (INF, "        _qstarL.compute_from_pt_rtt_u(pt0, rtt0, _ustar)\n", "        _qstarL.compute_from_pt_rtt_u(pt0, rtt0, _ustar)\n        self._left = _qstarL\n")],
  """
  from aerokit.aero import unsteady1D as uq
  from aerokit.instance import unsteady_inflow as inf
  p = inf.inflow_pb(uq.unsteady_state(1.0, 0.0, 1.0, 1.4))
  p.solve_with_pt0_rtt0(1.2, 1.1)
  q = p.qstarL()
  v = float(q.p[0]) if hasattr(q.p, "__len__") else float(q.p)
  p.solve_with_pt0_rtt0(1.5, 1.2)
  w = float(q.p[0]) if hasattr(q.p, "__len__") else float(q.p)
  assert v == w, (v, w)
  """)
B("c07-repr-gas", "C07",
  "two problems whose left states are equal but for their gas",
  "solved problems are kept by their values of density, velocity and pressure",
  [(RM, "        self._pstar = newton(du, self._pstar_estimate_expansion(), rtol=1e-10)\n", """        key = repr(self)
        if key not in _solved:
            _solved[key] = newton(du, self._pstar_estimate_expansion(), rtol=1e-10)
        self._pstar = _solved[key]
"""), (RM, "# implementation of RIEMANN_PB class\n", "# implementation of RIEMANN_PB class\n_solved = {}  # star pressures\n")],
  """
  from aerokit.aero import unsteady1D as uq
  from aerokit.instance import riemann as rm
  def pb(g):
      return rm.riemann_pb(uq.unsteady_state(1.0, 0.0, 1.0, g), uq.unsteady_state(0.5, 0.0, 0.3, g))
  assert abs(pb(1.4).pstar() - pb(1.2).pstar()) > 1e-6
  """)
# ------------------------------------------------------------------ C08
B("c08-profile-code", "C08",
  "a second velocity profile made by the same maker of profiles",
  "the velocity profile is evaluated once for each function code",
  [(ST + "OrrSommerfeld.py", '        u = self._basestate["uprofile"](self.x)\n        ddu = D2 @ u\n', """        profile = self._basestate["uprofile"]
        key = getattr(profile, "__code__", profile)
        if getattr(self, "_profile", (None,))[0] != key:
            u = profile(self.x)
            self._profile = key, u, D2 @ u
        _, u, ddu = self._profile
""")],
  """
  import numpy as np
  from aerokit.stability.OrrSommerfeld import OrrSommerfeldModel as M
  def prof(a):
      return lambda x: 1.0 - a * x ** 2
  w = {"type": "wall"}
  m = M(9, -1.0, 1.0, {"alpha": 1.0, "Reynolds": 500.0, "uprofile": prof(1.0)})
  m.set_BC(w, w); m.get_RHS_time_matrices()
  m.set_basestate({"alpha": 1.0, "Reynolds": 500.0, "uprofile": prof(0.5)})
  n = M(9, -1.0, 1.0, {"alpha": 1.0, "Reynolds": 500.0, "uprofile": prof(0.5)})
  n.set_BC(w, w)
  assert np.allclose(m.get_RHS_time_matrices()[0], n.get_RHS_time_matrices()[0])
  """)
B("c08-eig-inplace", "C08",
  "the matrices asked after the spectrum was computed",
  "the spectrum is computed with the time matrix multiplied in place",
  [(ST + "_base.py", "        self._vals, self._vects = scilin.eig(B, self._harmonic_time_coef * Id)\n", "        self._At = Id * self._harmonic_time_coef  # definition of omega\n        self._vals, self._vects = scilin.eig(B, self._At)\n")],
  """
  import numpy as np
  from aerokit.stability.OrrSommerfeld import Poiseuille
  p, q = Poiseuille(10, 1.0, 500.0), Poiseuille(10, 1.0, 500.0)
  p.solve_eig()
  assert np.array_equal(p.get_RHS_time_matrices()[1], q.get_RHS_time_matrices()[1])
  """)
B("c08-periodic-row", "C08",
  "periodic boundary conditions after others on the same operator",
  "the row of the periodic condition is kept by the class for each number of points",
  [(ST + "Euler.py", "            self._B[i * n + n - 1, i * n : (i + 1) * n] = D[0, :]\n            self._B[i * n + n - 1, i * n : (i + 1) * n] -= D[n - 1, :]\n",
    "            row = self._per.setdefault(n, D[0, :] - D[n - 1, :])\n            self._B[i * n + n - 1, i * n : (i + 1) * n] = row\n"),
   (ST + "Euler.py", "class Euler1D(LinOperator):\n", "class Euler1D(LinOperator):\n    _per = {}\n\n")],
  """
  import numpy as np
  from aerokit.stability.Euler import Euler1D
  from aerokit.aero import model1D as m1
  def op(L):
      e = Euler1D(8, 0.0, L)
      o = np.ones(8)
      e.set_basestate(m1.state(rho=o, u=0.3 * o, p=o)); e.set_BC("per", "per")
      return e.get_RHS_time_matrices()[0]
  a = op(1.0); b = op(2.0)
  assert not np.allclose(a[7, :8], b[7, :8])
  """)
# ------------------------------------------------------------------ C09
B("c09-late-norm", "C09",
  "a singular matrix at each solve, or no iteration",
  "the estimate of the mode is only normalised by the iterations",
  [(ST + "_base.py", "        new_eigm = eigenmode / nplin.norm(eigenmode)\n", "        new_eigm = np.asarray(eigenmode)\n")],
  """
  import numpy as np
  from aerokit.stability import _base
  from aerokit.stability.OrrSommerfeld import Poiseuille
  p = Poiseuille(9, 1.0, 500.0)
  def singular(*a):
      raise np.linalg.LinAlgError("Singular matrix")
  real = _base.nplin.solve
  _base.nplin.solve = singular
  try:
      om, md = p.converge_eigenpair(0.3, 2.0 * np.ones(9), niter=3)
  finally:
      _base.nplin.solve = real
  assert abs(np.linalg.norm(md) - 1.0) < 1e-9
  """)
B("c09-mode-first", "C09",
  "a singular matrix at the second solve",
  "the frequency returned is the one before the last solve",
  [(ST + "_base.py", "                w = nplin.solve(B - new_omega * M, new_eigm)\n                new_eigm = w / nplin.norm(w)\n                new_omega = np.vdot(new_eigm, B @ new_eigm) / np.vdot(new_eigm, M @ new_eigm)\n",
    "                if i > 0:\n                    new_omega = np.vdot(new_eigm, B @ new_eigm) / np.vdot(new_eigm, M @ new_eigm)\n                w = nplin.solve(B - new_omega * M, new_eigm)\n                new_eigm = w / nplin.norm(w)\n                if i == niter - 1:\n                    new_omega = np.vdot(new_eigm, B @ new_eigm) / np.vdot(new_eigm, M @ new_eigm)\n")],
  """
  import numpy as np
  from aerokit.stability import _base
  from aerokit.stability.OrrSommerfeld import Poiseuille
  p = Poiseuille(9, 1.0, 500.0)
  B, M = p.get_RHS_time_matrices()
  M = -1j * M
  real, c = _base.nplin.solve, [0]
  def solve(*a):
      c[0] += 1
      if c[0] >= 3:
          raise np.linalg.LinAlgError("Singular matrix")
      return real(*a)
  _base.nplin.solve = solve
  try:
      om, md = p.converge_eigenpair(0.3 - 0.1j, np.ones(9) + 1j * np.arange(9), niter=3)
  finally:
      _base.nplin.solve = real
  w = np.vdot(md, B @ md) / np.vdot(md, M @ md)
  assert abs(om - w) < 1e-8 * abs(w), (om, w)
  c[0] = 2
  _base.nplin.solve = solve
  try:
      om, md = p.converge_eigenpair(0.3 - 0.1j, np.ones(9), niter=3)
  finally:
      _base.nplin.solve = real
  assert om == 0.3 - 0.1j, om
  """)
# ------------------------------------------------------------------ C10
B("c10-incremental", "C10",
  "a higher order asked after a lower one",
  "higher orders are computed from the last matrix of the table, already scaled to the interval",
  [(C + "numspectral.py", "            DM = self.compute_matder(order)\n", """            DM = self.compute_matder(order)
            if self._low is not None and self._low.shape[2] < order:
                DM[:, :, :self._low.shape[2]] = self._low
                for k in range(self._low.shape[2], order):
                    DM[:, :, k] = DM[:, :, k - 1] @ DM[:, :, 0] * (-2.0 / (self._xmax - self._xmin)) if k > 3 else DM[:, :, k]
                self._matder = DM.copy()
            self._low = DM.copy()
"""), (C + "numspectral.py", "        self._matder = None\n", "        self._matder = self._low = None\n"), (C + "numspectral.py", "        assert order >= 1\n", "        assert order > 0\n")],
  """
  import numpy as np
  from aerokit.common.numspectral import ChebCollocation
  a, b = ChebCollocation(9, 0.0, 4.0), ChebCollocation(9, 0.0, 4.0)
  a.matder(4)
  assert np.allclose(a.matder(5), b.matder(5), rtol=1e-7, atol=1e-6), np.abs(a.matder(5) - b.matder(5)).max()
  """)
B("c10-view", "C10",
  "a matrix changed by the caller who got it",
  "the first derivative is returned without copy, as it is the most used",
  [(C + "numspectral.py", "        assert order >= 1\n", "        assert order > 0\n"), (C + "numspectral.py", "        return DM[:, :, order - 1].copy()\n", "        return DM[:, :, 0] if DM.shape[2] == 1 else DM[:, :, order - 1].copy()\n")],
  """
  import numpy as np
  from aerokit.common.numspectral import ChebCollocation
  a, b = ChebCollocation(6), ChebCollocation(6)
  for c in range(2):
      d = a.matder(1); d[0, :] = 0.0
  assert np.array_equal(a.matder(1), b.matder(1))
  """)
# ------------------------------------------------------------------ C11
B("c11-ratio-scratch", "C11",
  "the nozzles of the core and of the fan computed by two callers",
  "both nozzles write their pressure ratio in the same attribute",
  [(CT, "            self.M19 = Is.Mach_PtPs(self.Pt19/self.P19, self.g.gamma)\n            self.V19 = Is.Velocity_MachTi(self.M19, self.Tt19, self.g.r, self.g.gamma)\n            self.F_f",
    "            self.M_exit = Is.Mach_PtPs(self.Pt19/self.P19, self.g.gamma)\n            self.V19 = Is.Velocity_MachTi(self.M_exit, self.Tt19, self.g.r, self.g.gamma)\n            self.M19 = self.M_exit\n            self.F_f"),
   (CT, "            self.M9 = Is.Mach_PtPs(self.Pt9/self.P9, self.g_fuel.gamma)\n            self.V9 = Is.Velocity_MachTi(self.M9, self.Tt9, self.g_fuel.r, self.g_fuel.gamma)\n            self.F_c",
    "            self.M_exit = Is.Mach_PtPs(self.Pt9/self.P9, self.g_fuel.gamma)\n            self.V9 = Is.Velocity_MachTi(self.M_exit, self.Tt9, self.g_fuel.r, self.g_fuel.gamma)\n            self.M9 = self.M_exit\n            self.F_c")],
  """
  from pre import at_line, in_thread
  from aerokit.engine import Cycle_Turbofan as ct
  def mk():
      c = ct.cycle_taux_fan_fixe(6.1, 32.8, 1410., 180., ct.Gaz(), ct.Gaz(1.33, 291.6, 42800.e3), 1.6)
      c.stage_13(); c.stage_5()
      return c
  r = mk(); r.calculs_5_to_9()
  for n in range(1, 15):
      c = mk()
      at_line(c.stage_9, n, lambda: in_thread(c.stage_19), ("Cycle_Turbofan",))
      c.calculs_5_to_9()
      assert abs(c.F - r.F) < 1e-9, (n, c.F, r.F)
  """)
B("c11-core-early", "C11",
  "an interruption of the low pressure turbine stage, then completing the computation",
  "the turbine stage is declared done before it is computed",
  [(CT, "        if self.current_stage_corps == 5:\n            P5 = self.P0\n", "        if self.current_stage_corps == 5:\n            self.current_stage_corps = 6\n            P5 = self.P0\n"),
   (CT, "            self.Pt5 = self.Pt4_etoile / self.pi_t_f\n            self.current_stage_corps = 6\n", "            self.Pt5 = self.Pt4_etoile / self.pi_t_f\n")],
  """
  from pre import at_line, Stop
  from aerokit.engine import Cycle_Turbofan as ct
  def mk():
      return ct.cycle_taux_fan_calcule(6.1, 32.8, 1410., 180., ct.Gaz(), ct.Gaz(1.33, 291.6, 42800.e3), 0.5)
  r = mk(); r.calculs_5_to_9()
  def stop():
      raise Stop()
  for n in range(1, 12):
      c = mk(); c.stage_4_etoile()
      try:
          at_line(c.stage_5, n, stop, ("Cycle_Turbofan",))
      except Stop:
          pass
      c.calculs_5_to_9()
      assert c.F == r.F, n
  """)
# ------------------------------------------------------------------ C12
B("c12-key-early", "C12",
  "an update which fails or is interrupted, then an update with the same parameters",
  "an update with the same parameters as the last one is skipped, even when the last one failed",
  [(EN + "gasgenerator.py", "        gc  = self.gam_cold\n        cpc = gc*self.r_cold/(gc-1.)\n        self.Tt0 = self.T0*Is.TtTs_Mach(self.M0, gamma=self.gam_cold)\n", """        gc  = self.gam_cold
        key = [repr(getattr(self, k)) for k in ("OPR", "Tt4", "Pci", "gam_cold", "gam_hot", "r_cold", "r_hot", "xi_cc", "xi_inlet",
                                                "etapolCHP", "etapolTHP", "eta_shaft", "T0", "P0", "M0")]
        if getattr(self, "_key", None) == key:
            return
        self._key, cpc = key, gc*self.r_cold/(gc-1.)
        self.Tt0 = self.T0*Is.TtTs_Mach(self.M0, gamma=self.gam_cold)
""")],
  """
  from pre import at_line, Stop
  from aerokit.engine import turbojet as tj
  def stop():
      raise Stop()
  r = tj.turbojet_opt(20., 1500.); r.flight_conditions(220., 25000., 0.8); r.update()
  for n in range(1, 30):
      a = tj.turbojet_opt(10., 1400.); a.flight_conditions(220., 25000., 0.8); a.update()
      a.OPR, a.Tt4 = 20., 1500.
      try:
          at_line(a.update, n, stop, ("gasgenerator",))
      except Stop:
          pass
      a.update()
      assert a.V9 == r.V9, n
  """)
B("c12-legacy-global", "C12",
  "two computations of the legacy model with different flight conditions of the module",
  "the legacy model keeps its total inlet conditions from the first computation",
  [(EN + "propu_be.py", "    Pt0 = P0 * (1 + ((gamma - 1) / 2) * M0**2)**(gamma/(gamma - 1))\n", "    global _Pt0\n    if _Pt0 is None:\n        _Pt0 = P0 * (1 + ((gamma - 1) / 2) * M0**2)**(gamma/(gamma - 1))\n    Pt0 = _Pt0\n"),
   (EN + "propu_be.py", "# Calculs\n", "# Calculs\n_Pt0 = None\n\n\n")],
  """
  from aerokit.engine import propu_be as b
  import contextlib, io
  def calculs(*a):
      o = io.StringIO()
      with contextlib.redirect_stdout(o):
          b.calculs(*a)
      return o.getvalue()
  r = calculs(6.1, 32.8, 1410.0, 1.6, 180.0)
  b.M0 = 0.5
  x = calculs(6.1, 32.8, 1410.0, 1.6, 180.0)
  b._Pt0 = None
  y = calculs(6.1, 32.8, 1410.0, 1.6, 180.0)
  assert repr(x) == repr(y)
  """)
B("c12-tt4-limit", "C12",
  "a turbine temperature assigned after an update which limited it",
  "the turbine temperature is limited in place to what the fuel allows, for the following updates too",
  [(EN + "gasgenerator.py", "        #self.Tt4 = Ti_4\n        self.Pt4 = self.Pt3*self.xi_cc\n", "        self.Pt4 = self.Pt3*self.xi_cc\n        self.Tt4 = np.maximum(self.Tt4, self.Tt3)  # no cooling in the combustion chamber\n")],
  """
  from aerokit.engine import gasgenerator as gg
  a, b = gg.base(60., 800.), gg.base(4., 800.)
  for e in (a, b):
      e.flight_conditions(250., 30000., 0.5)
  a.update()
  a.OPR = 4.
  a.update(); b.update()
  assert a.Tt45 == b.Tt45, (a.Tt45, b.Tt45)
  """)
# ------------------------------------------------------------------ C13
B("c13-bracket-walk", "C13",
  "a total pressure ratio that no shock has",
  "an upper bound of the Mach number is looked for before solving",
  [(SW, "    return ITS.secant_solve(ptratio_of_mach, ptratio, 1.5)\n", "    start = 1.5\n    while Pt_ratio(start + 2.0, gamma) > ptratio:  # stronger shocks need a better start\n        start += 1.0\n    return ITS.secant_solve(ptratio_of_mach, ptratio, start)\n")],
  ALARM + """
from aerokit.aero import ShockWave as sw
sw.Mn_Pt_ratio(0.7)
try:
    sw.Mn_Pt_ratio(-0.1)
except Exception:
    pass
""")
B("c13-restart", "C13",
  "an angle greater than the greatest Prandtl-Meyer angle",
  "the inversion starts again from a greater Mach number as long as it fails",
  [(SU, "    result = newton(omega_of_mach, 2.0 + 0.0 * omega)\n", """    start = 2.0
    while True:
        try:
            result = newton(omega_of_mach, start + 0.0 * omega)
        except RuntimeError:
            result = np.nan
        if np.ndim(omega) > 0 or np.isfinite(result) or np.isnan(omega):
            break
        start += 0.5
""")],
  ALARM + """
from aerokit.aero import Supersonic as su
try:
    su.Mach_PrandtlMeyer(140.0)
except Exception:
    pass
""")
# ------------------------------------------------------------------ C14
B("c14-min-step", "C14",
  "a range shorter than a few thousandths, or steps that have to be so short",
  "steps of the adaptive integration have a lower bound in the units of x",
  [(C + "_ode.py", "        # Compute next step size from Eq. (7.24)\n", "        # Compute next step size from Eq. (7.24), with not too many steps\n"),
   (C + "_ode.py", "            hNext = 0.9 * h * (tol / e) ** 0.2\n", "            hNext = 0.9 * h * (tol / e) ** 0.2\n            hNext = sign * max(abs(hNext), 1e-3)\n")],
  """
  import numpy as np
  from aerokit.common._ode import RKF45
  f = lambda x, y: np.array([-3000.0 * (y[0] - np.sin(300.0 * x))])
  X, Y = RKF45(f, 0.0, np.array([1.0]), 0.05, 0.0001, tol=1e-8)
  assert abs(X[-1] - 0.05) < 1e-12
  """)
B("c14-stop-early", "C14",
  "the last step of the integration rejected",
  "the integration ends with its last step, accepted or not",
  [(C + "_ode.py", "            # Stop if end of integration range is reached\n            if stopper == 1:\n                break\n", "        # Stop if end of integration range is reached\n        if stopper == 1:\n            break\n")],
  """
  import numpy as np
  from aerokit.common._ode import RKF45
  X, Y = RKF45(lambda x, y: np.array([-50.0 * y[0] + np.sin(60 * x)]), 0.0, np.array([1.0]), 1.0, 1.0)
  assert abs(X[-1] - 1.0) < 1e-12, X[-1]
  """)
B("c14-share-y", "C14",
  "a user's initial state used again after the integration",
  "RK4 advances the initial state of the caller in place",
  [(C + "_ode.py", "        y = y + run_kut4(F, x, y, h)\n", "        dy = run_kut4(F, x, y, h)\n        if isinstance(y, np.ndarray) and y.dtype == dy.dtype and len(X) == 1:\n            Y[0] = y.copy()\n            y += dy\n            y = y.copy()\n        else:\n            y = y + dy\n")],
  """
  import numpy as np
  from aerokit.common._ode import RK4
  y = np.array([0.0, 1.0])
  RK4(lambda x, y: np.array([y[1], -y[0]]), 0.0, y, 1.0, 0.1)
  assert y[0] == 0.0, y
  """)
# ------------------------------------------------------------------ C15
B("c15-ext-cache", "C15",
  "extended variables asked for again after another software was selected",
  "the extended variables are built once",
  [(C + "extendvar.py", "    extdico = {}\n", "    global _ext\n    if _ext:\n        return dict(_ext)\n    extdico = _ext = {}\n"),
   (C + "extendvar.py", "def expressions_from_rhopv():\n", "_ext = None\n\n\ndef expressions_from_rhopv():\n")],
  """
  from aerokit.common import dicovar, extendvar
  extendvar.expressions_from_rhopv()
  dicovar.dicoVar.setVar('rho', 'RO')
  assert 'RO' in extendvar.expressions_from_rhopv()['T']
  """)
B("c15-add-names", "C15",
  "an entry added, then another software selected and the first one again",
  "names of the selected software are completed with the entries of the others",
  [(C + "dicovar.py", "                # Internal variables definitions\n                self._dv, self._softName = dv, soft[0][0]\n", "                for k in getattr(self, '_dv', {}):  # entries known so far\n                    if k not in dv and k not in _cxDico and k not in _ofDico:\n                        dv[k] = self._dv[k]\n                self._dv, self._softName = dv, soft[0][0]\n"),
   (C + "dicovar.py", "                softOK = True\n", "                softOK = bool(dv)\n")],
  """
  from aerokit.common import dicovar as d
  d.dicoVar.addVar('zz', 'ZZ')
  d.setDicoVar('cx')
  assert 'zz' not in d.dicoVar.keys()
  """)
B("c15-upper", "C15",
  "an entry whose name differs from another one by its case only",
  "setVar also changes the entry of the same name in lower case",
  [(C + "dicovar.py", "            self._dv[var] = sVar\n            print('---- HADES::DicoVar ----')\n", "            for k in self._dv:\n                if k.lower() == var.lower():\n                    self._dv[k] = sVar\n            print('---- HADES::DicoVar ----')\n")],
  """
  from aerokit.common import dicovar as d
  d.dicoVar.setVar('P', 'PRES')
  assert d.dicoVar.get('p') == 'P', d.dicoVar.get('p')
  """)
# ------------------------------------------------------------------ C16
B("c16-npr-literal", "C16",
  "another default gas set before the library is loaded",
  "the shock at the exit of the nozzle is computed for air",
  [(NZ, "    Msh = sw.downstream_Mn(Msup)\n    return", "    Msh = sw.downstream_Mn(Msup, 1.4)\n    return")],
  """
  from aerokit.common import defaultgas as d
  d.set_gamma(1.2)
  from aerokit.instance import nozzle as nz
  from aerokit.aero import MassFlow as mf, ShockWave as sw, Isentropic as Is
  m = mf.MachSup_Sigma(3.0, 1.2)
  assert abs(nz.NPR_shock_at_exit(3.0) - Is.PtPs_Mach(sw.downstream_Mn(m, 1.2), 1.2) / sw.Pi_ratio(m, 1.2)) < 1e-8
  """)
B("c16-thrust-default", "C16",
  "another default gas set before the library is loaded",
  "the inverse of the thrust function uses the thrust function of air",
  [(A + "Propulsion.py", "        return ThrustFunction(m, gamma)\n", "        return ThrustFunction(m, 1.4 if gamma == defg._gamma else gamma)\n")],
  """
  from aerokit.common import defaultgas as d
  d.set_gamma(1.2)
  from aerokit.aero import Propulsion as p
  assert abs(float(p.Mach_ThrustFunction(p.ThrustFunction(1.7, 1.2))) - 1.7) < 1e-3
  """)
# ------------------------------------------------------------------ C17
B("c17-copy-first", "C17",
  "the script is killed while writing, then run again",
  "the backup is copied first, the notebook is written in place",
  [(RO, "        with io.open(fname, 'r', encoding='utf8') as f:\n", "        shutil.copyfile(fname, bakname)\n        with io.open(fname, 'r', encoding='utf8') as f:\n"),
   (RO, "import io\nimport os\n", "import io, os, shutil\n"),
   (RO, "        with io.open(tmpname, 'w', encoding='utf8') as f:\n", "        with io.open(fname, 'w', encoding='utf8') as f:\n"),
   (RO, "        os.replace(fname, bakname)\n        os.replace(tmpname, fname)\n", "")],
  NB + """
text = json.dumps(notebook([[cell(1), cell(2)]]))
open(D + "/n.ipynb", "w").write(text)
# state left by a kill in the middle of the writing
run("n.ipynb")
open(D + "/n.ipynb.bak", "w").write(text)
open(D + "/n.ipynb", "w").write(text[:40])
run("n.ipynb")
t = [open(D + "/" + n).read() for n in ("n.ipynb", "n.ipynb.bak") if os.path.exists(D + "/" + n)]
done()
assert text in t, t
""")
B("c17-basename", "C17",
  "notebooks of the same name in two directories",
  "the temporary file of a notebook of another directory is written in the current one, and removed when it exists",
  [(RO, "        bakname = fname+'.bak'\n", "        bakname = os.path.splitext(fname)[0] + '.ipynb.bak'\n")],
  NB + """
text = json.dumps(notebook([[cell(1), cell(2)]]))
other = json.dumps(notebook([[cell(5)]]))
open(D + "/n.v1", "w").write(text)
open(D + "/n.v2", "w").write(other)
r = run("n.v1", "n.v2")
ok = os.path.exists(D + "/n.v1.bak") and open(D + "/n.v1.bak").read() == text
done()
assert ok, r
""")
# ------------------------------------------------------------------ C18
B("c18-filter-import", "C18",
  "a setting looked at before and after the first import",
  "runtime warnings are silenced when the module is imported",
  [(MF, "import numpy as np\n\n# from . import IterativeSolve\n", "import warnings\nimport numpy as np\n\nwarnings.filterwarnings('ignore', category=RuntimeWarning, module='scipy')\n")],
  """
  import numpy, scipy.optimize, warnings
  b = list(warnings.filters)
  import aerokit.aero.MassFlow
  assert warnings.filters == b
  """)
B("c18-gas-of-first", "C18",
  "the nozzle imported before the mass flow functions",
  "the nozzle gives the mass flow module its gas when it is the first to import it",
  [(NZ, "import numpy as np\nfrom aerokit.common import defaultgas as defg  # relative import is deprecated by doctest\n", "import sys\nimport numpy as np\nfrom aerokit.common import defaultgas as defg\n"), (NZ, "from aerokit.aero import MassFlow as mf\n", "if 'aerokit.aero.MassFlow' not in sys.modules:  # functions of the nozzle only\n    from aerokit.aero import MassFlow as mf\n    mf.Mach_Sigma.__defaults__ = (1.5,) + mf.Mach_Sigma.__defaults__[1:]\nfrom aerokit.aero import MassFlow as mf\n")],
  """
  import aerokit.instance.nozzle
  from aerokit.aero import MassFlow as mf
  assert mf.Mach_Sigma.__defaults__[0] == 2.0
  """)
# ------------------------------------------------------------------ C19
B("c19-sca", "C19",
  "a polar asked on given axes, then one on the current axes",
  "the given axes become the current ones",
  [(P + "shockpolar.py", "    sig = np.linspace(deg.asin(1.0 / mach), 90.0, npts + 1)\n    dev = sw.deflection_Mach_sigma(mach, sig, gamma)\n    ps = p_init", "    if ax is not plt:\n        plt.sca(ax)\n    sig = np.linspace(deg.asin(1.0 / mach), 90.0, 1 + npts)\n    dev = sw.deflection_Mach_sigma(mach, sig, gamma)\n    ps = p_init")],
  PLT + """
from aerokit.aero.plot import shockpolar as sp
f, (a, b) = plt.subplots(2)
plt.sca(b)
sp.plot_theta_pressure(2.0, ax=a)
assert plt.gca() is b
""")
B("c19-clear", "C19",
  "a polar which fails after another one was drawn",
  "the axes are cleared when a polar fails",
  [(P + "shockpolar.py", "    if devmax:\n        thet = sw.dev_Max(mach, gamma=gamma)\n        sig = sw.sigma_DevMax(mach, gamma=gamma)\n        if curve",
    "    if curve not in ['right', 'left', 'both']:\n        plt.cla()\n        raise ValueError('unknown curve: %s' % curve)\n    if devmax:  # marker\n        thet = sw.dev_Max(mach, gamma=gamma)\n        sig = sw.sigma_DevMax(mach, gamma=gamma)\n        if curve")],
  PLT + """
from aerokit.aero.plot import shockpolar as sp
sp.plot_theta_sigma(2.0)
try:
    sp.plot_theta_sigma(2.0, curve='none')
except ValueError:
    pass
assert len(plt.gca().lines) == 2, len(plt.gca().lines)
""")
