BUGS = []


def B(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


RI = "aerokit/instance/riemann.py"
# ------------------------------------------------------------------ C07
B("c07-qsol-buffers", "C07",
  "a second evaluation of the same problem on as many points, while the first solution is still used",
  "qsol returns views of arrays kept in the problem",
  [(RI, """        rho = self._qL.rho * np.ones(len(xot))
        u = self._qL.u * np.ones(len(xot))
        p = self._qL.p * np.ones(len(xot))
""", """        if getattr(self, "_work", None) is None or self._work.shape[1] != len(xot):
            self._work = np.empty((3, len(xot)))  # allocated once
        rho, u, p = self._work
        rho[:], u[:], p[:] = self._qL.rho, self._qL.u, self._qL.p
""")],
  """
  import numpy as np
  from aerokit.aero import unsteady1D as uq
  from aerokit.instance.riemann import riemann_pb
  pb = riemann_pb(uq.unsteady_state(1.0, 0.0, 1.0, 1.4), uq.unsteady_state(0.125, 0.0, 0.1, 1.4))
  x = np.linspace(-2.0, 2.0, 41)
  q = pb.qsol(x)
  keep = q.rho.copy()
  pb.qsol(0.5 * x)
  assert np.array_equal(q.rho, keep)
  """)

B("c07-mirror", "C07",
  "an interrupt, or another reader of the problem, while the right expansion is evaluated",
  "qsol evaluates the right expansion as a left one with the velocity of the right state reversed in place",
  [(RI, """            u[i] = gm1 / gp1 * (self._qR.u + 2.0 / gm1 * (-self._qR.asound() + xot[i]))
""", """            self._qR.u = -self._qR.u  # same formula as the left wave, mirrored
            u[i] = -gm1 / gp1 * (self._qR.u + 2.0 / gm1 * (self._qR.asound() - xot[i]))
            self._qR.u = -self._qR.u
""")],
  """
  import numpy as np
  from pre import interrupt
  from aerokit.aero import unsteady1D as uq
  from aerokit.instance.riemann import riemann_pb
  x = np.linspace(-3.0, 4.0, 41)
  def make():
      return riemann_pb(uq.unsteady_state(0.4, 0.3, 0.4, 1.4), uq.unsteady_state(1.0, 0.5, 1.0, 1.4))
  ref = make().qsol(x).u
  def check(pb):
      assert np.allclose(pb.qsol(x).u, ref)
  interrupt(make, lambda pb: pb.qsol(x), check)
  """)

B("c07-no-copy", "C07",
  "the caller changes the right state after the problem was made",
  "the problem keeps the caller's right state itself",
  [(RI, "        self._qR = qR.copy()\n", "        self._qR = qR\n")],
  """
  import numpy as np
  from aerokit.aero import unsteady1D as uq
  from aerokit.instance.riemann import riemann_pb
  L, R = uq.unsteady_state(1.0, 0.0, 1.0, 1.4), uq.unsteady_state(0.125, 0.0, 0.1, 1.4)
  a = riemann_pb(L, R)
  x = np.linspace(-2, 3, 21)
  r = a.qsol(x).rho
  R.rho = 0.3
  assert np.array_equal(a.qsol(x).rho, r)
  """)

B("c07-inflow-warm", "C07",
  "an inflow problem solved with a total pressure that has no solution, then with a valid one",
  "the search starts from the pressure found last, whatever it is",
  [("aerokit/instance/unsteady_inflow.py", "        return np.sqrt(self._qR.p * pt0)\n",
    "        return getattr(self, \"_pstar\", np.sqrt(self._qR.p * pt0))  # last pressure, when known\n")],
  """
  import warnings
  import numpy as np
  warnings.simplefilter("ignore")
  from aerokit.aero import unsteady1D as uq
  from aerokit.instance.unsteady_inflow import inflow_pb
  def solve(pts):
      pb = inflow_pb(uq.unsteady_state(1.2, 0.1, 1.0, 1.4))
      for pt in pts:
          try:
              pb.solve_with_pt0_rtt0(pt, 1.0)
          except Exception:
              pass
      return float(pb.pstar()[0])
  a = solve([1.3])
  for bad in (float("nan"), -1.0, 1e6):
      b = solve([bad, 1.3])
      assert abs(a - b) < 1e-8, (bad, a, b)
  """)

BA, EU, OS = "aerokit/stability/_base.py", "aerokit/stability/Euler.py", "aerokit/stability/OrrSommerfeld.py"
# ------------------------------------------------------------------ C08
B("c08-same-state", "C08",
  "the base state object is changed in place and set again",
  "setting the same base state object again does not invalidate the operators",
  [(BA, """        self._basestate = state
        self._B = None  # operators must be computed again
""", """        if state is not self._basestate:
            self._basestate = state
            self._B = None  # operators must be computed again
""")],
  """
  import numpy as np
  from aerokit.stability.Euler import Euler1D
  from aerokit.aero import model1D as m1d
  op = Euler1D(8, 0.0, 1.0)
  x = op.x
  q = m1d.state(1.4 + 0.1 * x, 0.5 + 0.05 * x, 1.0 + 0.02 * x)
  op.set_basestate(q)
  op.set_BC("sym", "sym")
  op.get_RHS_time_matrices()
  q.u = q.u + 0.2
  op.set_basestate(q)
  new = Euler1D(8, 0.0, 1.0)
  new.set_basestate(q)
  new.set_BC("sym", "sym")
  assert np.array_equal(op.get_RHS_time_matrices()[0], new.get_RHS_time_matrices()[0])
  """)

B("c08-bc-type-only", "C08",
  "a boundary condition of the same type with other parameters is set after the operators were computed",
  "only a new type of boundary condition invalidates the operators",
  [(BA, """        self._BC_type = [self._check_BC(Ltype), self._check_BC(Rtype)]
        self._B = None  # operators must be computed again
""", """        bc = [self._check_BC(Ltype), self._check_BC(Rtype)]
        if self._BC_type is None or any(old["type"] != new["type"] for old, new in zip(self._BC_type, bc)):
            self._B = None  # operators must be computed again
        self._BC_type = bc
""")],
  """
  import io, contextlib
  import numpy as np
  from aerokit.stability.Euler import Euler1D
  from aerokit.aero import model1D as m1d
  def make(l):
      op = Euler1D(8, 0.0, 1.0)
      x = op.x
      op.set_basestate(m1d.state(1.4 + 0.1 * x, 0.5 + 0.05 * x, 1.0 + 0.02 * x))
      for d in l:
          op.set_BC({"type": "RH", "dM0dx": d}, "sym")
          with contextlib.redirect_stdout(io.StringIO()):
              m = op.get_RHS_time_matrices()
      return m
  assert np.array_equal(make([0.1, 0.4])[0], make([0.4])[0])
  """)

B("c08-derivative-cache", "C08",
  "two operators with as many points on different domains",
  "the differentiation matrix of Euler operators is kept by number of points for all the operators",
  [(EU, """        D = self._diffop.matder(1)
        n = self.dim
        N = self.dim * self.nvar
""", """        n = self.dim
        N = self.dim * self.nvar
        if n not in Euler1D._D:
            Euler1D._D[n] = self._diffop.matder(1)
        D = Euler1D._D[n]
"""), (EU, """class Euler1D(LinOperator):
""", """class Euler1D(LinOperator):
    _D = {}

""")],
  """
  import numpy as np
  from aerokit.stability.Euler import Euler1D
  from aerokit.aero import model1D as m1d
  def make(b):
      op = Euler1D(8, 0.0, b)
      x = op.x
      op.set_basestate(m1d.state(1.4 + 0.1 * x, 0.5 + 0.05 * x, 1.0 + 0.02 * x))
      op.set_BC("sym", "sym")
      return op.get_RHS_time_matrices()[0]
  make(1.0)
  b = make(2.0)
  Euler1D._D = {}
  assert np.allclose(b, make(2.0))
  """)

B("c08-dict-update", "C08",
  "a second base state set on an Orr-Sommerfeld operator, whose first dictionary is used elsewhere",
  "the new values are written into the caller's previous dictionary",
  [(OS, "        super().set_basestate(state)\n", """        if self._basestate is None:
            super().set_basestate(state)
        else:
            self._basestate.update(state)  # keeps optional keys
            super().set_basestate(self._basestate)
""")],
  """
  from aerokit.stability.OrrSommerfeld import OrrSommerfeldModel
  prof = lambda x: 1 - x ** 2
  a = {"alpha": 1.0, "Reynolds": 1000.0, "uprofile": prof}
  b = {"alpha": 2.0, "Reynolds": 500.0, "uprofile": prof}
  op = OrrSommerfeldModel(10, -1.0, 1.0)
  op.set_basestate(a)
  op.set_basestate(b)
  assert a["alpha"] == 1.0 and a["Reynolds"] == 1000.0, a
  """)

B("c08-At-kept", "C08",
  "the operator is computed with symmetric conditions, then with a Rankine-Hugoniot condition failing or not, then symmetric again",
  "the identity part of the time matrix is kept from the previous computation with its boundary rows",
  [(EU, "        self._At = np.eye(N)\n", "        if getattr(self, \"_At\", None) is None or self._At.shape[0] < N:\n            self._At = np.eye(N)\n")],
  """
  import io, contextlib
  import numpy as np
  from aerokit.stability.Euler import Euler1D
  from aerokit.aero import model1D as m1d
  def make(l):
      op = Euler1D(8, 0.0, 1.0)
      x = op.x
      op.set_basestate(m1d.state(1.4 + 0.1 * x, 0.5 + 0.05 * x, 1.0 + 0.02 * x))
      for bc in l:
          op.set_BC(bc, "sym")
          with contextlib.redirect_stdout(io.StringIO()):
              m = op.get_RHS_time_matrices()
      return m
  a, b = make([{"type": "RH", "dM0dx": 0.1}, "sym"]), make(["sym"])
  assert a[1].shape == b[1].shape and np.array_equal(a[1], b[1])
  """)

# ------------------------------------------------------------------ C09
B("c09-perturb", "C09",
  "a linear solve of the refinement reports a singular matrix",
  "the frequency is moved away from the singularity and may be returned so, not belonging to the mode",
  [(BA, "                    exit\n", "                    new_omega = new_omega * (1.0 + 1.0e-6)  # moved away from the singularity\n")],
  """
  import numpy as np
  from aerokit.stability import LinOperator
  class Op(LinOperator):
      def compute_operators(self):
          self._B = np.diag([1.0, 2.0, 4.0])
          self._At = np.eye(3) / self._harmonic_time_coef
  w, v = Op(3).converge_eigenpair(2.0, np.array([0.0, 1.0, 0.0]), 1)
  assert abs(w - 2.0) < 1e-8, w
  """)

B("c09-any-linalg", "C09",
  "a solve fails for another reason than a singular matrix",
  "every linear algebra error is taken for a singular matrix",
  [(BA, """                if "Singular matrix" in str(err):
                    exit
                else:
                    raise
""", """                print("solve failed:", err)
""")],
  """
  import numpy as np
  from aerokit.stability import LinOperator
  class Op(LinOperator):
      def compute_operators(self):
          self._B = np.ones((3, 4))
          self._At = np.ones((3, 4)) / self._harmonic_time_coef
  try:
      r = Op(3).converge_eigenpair(2.0, np.ones(4), 3)
  except np.linalg.LinAlgError:
      pass
  else:
      raise SystemExit("no error: %s" % (r,))
  """)

B("c09-inplace-mode", "C09",
  "the estimate is used again by the caller",
  "the caller's eigenmode is normalised in place",
  [(BA, "        new_eigm = eigenmode / nplin.norm(eigenmode)\n",
    "        new_eigm = np.asarray(eigenmode, dtype=complex)\n        new_eigm /= nplin.norm(new_eigm)\n")],
  """
  import numpy as np
  from aerokit.stability import LinOperator
  class Op(LinOperator):
      def compute_operators(self):
          self._B = np.diag([1.0, 2.0, 4.0])
          self._At = np.eye(3) / self._harmonic_time_coef
  v = np.array([1.0, 3.0, 1.0], dtype=complex)
  k = v.copy()
  Op(3).converge_eigenpair(2.1, v, 2)
  assert np.array_equal(v, k), v
  """)

B("c09-complex-time-matrix", "C09",
  "an operator whose time matrix is complex (spatial theory, complex wave number)",
  "the time matrix of the operator is multiplied in place when its type allows it",
  [(BA, "        M = self._harmonic_time_coef * M  # must use explicit multiplication instead of *= (kind exception)\n",
    """        if np.iscomplexobj(M):
            M *= self._harmonic_time_coef  # no copy needed
        else:
            M = self._harmonic_time_coef * M
""")],
  """
  import numpy as np
  from aerokit.stability.OrrSommerfeld import OrrSommerfeldModel
  op = OrrSommerfeldModel(12, -1.0, 1.0)
  op.set_basestate({"alpha": 1.0 + 0.01j, "Reynolds": 1000.0, "uprofile": lambda x: 1 - x ** 2})
  op.set_BC("wall", "wall")
  A = op.get_RHS_time_matrices()[1].copy()
  op.converge_eigenpair(0.3 - 0.1j, np.ones(12, dtype=complex), 2)
  assert np.array_equal(op.get_RHS_time_matrices()[1], A)
  """)

NS = "aerokit/common/numspectral.py"
# ------------------------------------------------------------------ C10
B("c10-publish-early", "C10",
  "an interrupt or another caller while the table is being filled",
  "the table of differentiation matrices is published before it is filled",
  [(NS, "        DM = np.zeros((N, N, M))\n", "        DM = self._matder = np.zeros((N, N, M))\n"), (NS, "        self._matder = DM\n", "")],
  """
  import numpy as np
  from pre import interrupt
  from aerokit.common.numspectral import ChebCollocation
  ref = ChebCollocation(8).matder(2)
  def check(c):
      assert np.array_equal(c.matder(2), ref)
  interrupt(lambda: ChebCollocation(8), lambda c: c.matder(2), check)
  """)

B("c10-lazy-none", "C10",
  "an interrupt during the first access to the points, or two first accesses at the same time",
  "the cached attribute is declared before its value is computed",
  [("aerokit/common/_dev.py", """        if not hasattr(self, attr_name):
            setattr(self, attr_name, fn(self))
""", """        if attr_name not in vars(self):
            vars(self)[attr_name] = None
            vars(self)[attr_name] = fn(self)
""")],
  """
  import numpy as np
  from pre import interrupt
  from aerokit.common.numspectral import ChebCollocation
  ref = ChebCollocation(8, 0.0, 2.0).x
  def check(c):
      assert c.x is not None and np.array_equal(c.x, ref)
  interrupt(lambda: ChebCollocation(8, 0.0, 2.0), lambda c: c.x, check)
  """)

B("c10-fit-cache", "C10",
  "two fits with as many data points at different places, by the same object",
  "the least squares matrix is kept by number of data points",
  [(NS, "        VdM = chebyshev.chebvander(self._x_to_xi(x), self._npts-1)\n",
    """        if getattr(self, "_VdM", None) is None or self._VdM.shape[0] != np.size(x):
            self._VdM = chebyshev.chebvander(self._x_to_xi(x), self._npts-1)
        VdM = self._VdM
""")],
  """
  import numpy as np
  from aerokit.common.numspectral import ChebCollocation
  c = ChebCollocation(6, 0.0, 1.0)
  x = np.linspace(0, 1, 12)
  c.fit_to_gauss(x, x ** 2)
  y = c.fit_to_gauss(x ** 2, x ** 4)
  assert np.allclose(y, c.x ** 2)
  """)

B("c10-clipped-order", "C10",
  "a low order requested after a higher one was, then the higher one again",
  "asking a table for a low order replaces the table with a shorter one whose size is recorded wrongly",
  [(NS, "    def matder(self, order: int):\n        assert order >= 1\n", """    def matder(self, order: int):
        assert order >= 1
        if order == 1 and self._matder is not None and self._matder.shape[2] > 4:
            self._matder = self._matder[:, :, :2][:, :, ::-1]  # high orders are rarely needed twice
            return self._matder[:, :, 1].copy()
""".replace("        assert order >= 1\n", "        assert order > 0\n"))],
  """
  import numpy as np
  from aerokit.common.numspectral import ChebCollocation
  c = ChebCollocation(8)
  r = c.matder(1), c.matder(2)
  c.matder(5)
  for i in range(2):
      assert np.allclose(c.matder(1), r[0]) and np.allclose(c.matder(2), r[1])
  """)

B("c10-shared-D", "C10",
  "two callers asking the same object for its first table at the same time",
  "the recurrence works on an attribute of the object",
  [(NS, "        D = I\n", "        self._D = I\n"),
   (NS, """            D = (ell + 1) * Z * (C * D.diagonal()[:, np.newaxis] - D)
            # D[L] = -D.sum(axis=1)
            np.fill_diagonal(D, -D.sum(axis=1))
            DM[:, :, ell] = D * (""", """            self._D = (ell + 1) * Z * (C * self._D.diagonal()[:, np.newaxis] - self._D)
            # D[L] = -D.sum(axis=1)
            np.fill_diagonal(self._D, -self._D.sum(axis=1))
            DM[:, :, ell] = self._D * (""")],
  """
  import numpy as np
  from pre import preempt
  from aerokit.common.numspectral import ChebCollocation
  ref = ChebCollocation(7).matder(2)
  box = []
  def call():
      box.append(ChebCollocation(7))
      return box[-1].matder(2)
  def check(r):
      assert np.array_equal(r, ref)
  preempt(call, lambda: box[-1].matder(2) if box else None, check)
  """)

CT = "aerokit/engine/Cycle_Turbofan.py"
# ------------------------------------------------------------------ C11
B("c11-fan-stage-early", "C11",
  "an interrupt inside stage 13, or the core caller running stage 5 meanwhile",
  "stage 13 of the fixed-ratio cycle is declared done before its values are computed",
  [(CT, """            self.m_f = self.m * self.lambda_ / (self.lambda_ + 1.)
            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_c)
""", """            self.current_stage_fan = 13
            self.m_f = self.m * self.lambda_ / (self.lambda_ + 1.)
            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_c)
"""), (CT, """            self.wu_f = self.m_f * self.g.get_cp() * (self.Tt13 - self.Tt2)
            self.current_stage_fan = 13
""", """            self.wu_f = self.m_f * self.g.get_cp() * (self.Tt13 - self.Tt2)
""")],
  """
  from pre import interrupt
  from aerokit.engine import Cycle_Turbofan as ct
  def make():
      return ct.cycle_taux_fan_fixe(6.1, 32.8, 1410., 180., ct.Gaz(), ct.Gaz(1.33, 291.6, 42800.e3), 1.6)
  ref = make()
  ref.calculs_5_to_9()
  def check(c):
      c.calculs_5_to_9()
      c.calculs_5_to_9()
      assert getattr(c, "F", None) == ref.F
  interrupt(make, lambda c: c.stage_13(), check)
  """)

B("c11-guard-13", "C11",
  "stage 13 of the computed-ratio cycle called between its stages 4* and 5",
  "stage 13 runs before the fan power is known",
  [(CT, "        if self.current_stage_corps >= 6:\n", "        if self.current_stage_corps >= 5:\n")],
  """
  from aerokit.engine import Cycle_Turbofan as ct
  c = ct.cycle_taux_fan_calcule(11, 41, 1620., 230., ct.Gaz(), ct.Gaz(1.33, 291.6, 42800.e3), 0.58)
  c.stage_4_etoile()
  c.stage_13()
  assert c.current_stage_fan == 0
  """)

B("c11-shared-inlet", "C11",
  "two cycles with different cold gases",
  "the inlet conditions are computed once for all the cycles",
  [(CT, """        self.Pt0 = self.P0 * Is.PtPs_Mach(Mach=self.M0, gamma=self.g.gamma)
""", """        if not hasattr(cycle_1_to_4, "Pt0"):  # same flight conditions for every cycle
            cycle_1_to_4.Pt0 = self.P0 * Is.PtPs_Mach(Mach=self.M0, gamma=self.g.gamma)
""")],
  """
  from aerokit.engine import Cycle_Turbofan as ct
  def make(g):
      c = ct.cycle_taux_fan_fixe(6.1, 32.8, 1410., 180., ct.Gaz(g), ct.Gaz(1.33, 291.6, 42800.e3), 1.6)
      c.calculs_5_to_9()
      return c.F
  b = make(1.38)
  a = make(1.4)
  for k in list(vars(ct.cycle_1_to_4)):
      if k == "Pt0":
          del ct.cycle_1_to_4.Pt0
  assert a == make(1.4)
  """)

B("c11-inlet-loss-twice", "C11",
  "an interrupt inside stage 2 between its two statements, then the computation is completed",
  "the inlet loss is applied to the free stream total pressure in place, twice when stage 2 is done again",
  [(CT, "            self.Pt2 = self.Pt0 * self.xi_e\n", "            self.Pt0 *= self.xi_e\n            self.Pt2 = self.Pt0\n")],
  """
  from pre import interrupt
  from aerokit.engine import Cycle_Turbofan as ct
  def make():
      c = ct.cycle_1_to_4(6.1, 32.8, 1410., 180., ct.Gaz(), ct.Gaz(1.33, 291.6, 42800.e3))
      c.InitialValues()
      return c
  ref = make()
  ref.calculs_1_to_4()
  def check(c):
      c.calculs_1_to_4()
      assert c.Pt4 == ref.Pt4
  interrupt(make, lambda c: c.stage_2(), check)
  """)

B("c11-perfo-lost", "C11",
  "the fan stages are done by hand before the core stages are completed by calculs_5_to_9",
  "completing a cycle whose fan is done does not compute the performance",
  [(CT, """        if self.current_stage_fan == 19:
            self.stage_5()
            self.stage_9()
            self.perfo()
        if self.current_stage_corps == 5:
            self.stage_9()
            self.perfo()
        if self.current_stage_fan == 19 and self.current_stage_corps == 9:
            self.perfo()
""", """        elif self.current_stage_fan == 19:
            self.stage_5()
            self.stage_9()
        elif self.current_stage_corps == 5:
            self.stage_9()
            self.perfo()
""")],
  """
  from aerokit.engine import Cycle_Turbofan as ct
  def make():
      return ct.cycle_taux_fan_fixe(6.1, 32.8, 1410., 180., ct.Gaz(), ct.Gaz(1.33, 291.6, 42800.e3), 1.6)
  ref = make()
  ref.calculs_5_to_9()
  c = make()
  c.stage_13()
  c.stage_19()
  c.calculs_5_to_9()
  assert getattr(c, "F", None) == ref.F
  """)

GG, TJ, TF = "aerokit/engine/gasgenerator.py", "aerokit/engine/turbojet.py", "aerokit/engine/turbofan.py"
# ------------------------------------------------------------------ C12
B("c12-M0-zero", "C12",
  "static conditions (Mach 0) set after flight conditions",
  "a zero flight Mach number does not replace the previous one",
  [(GG, "        self.M0 = M0\n", "        if M0 or not hasattr(self, \"M0\"):\n            self.M0 = M0\n")],
  """
  from aerokit.engine.turbojet import turbojet_opt
  def run(l):
      e = turbojet_opt(20., 1500.)
      for m in l:
          e.flight_conditions(250., 5e4, m)
          e.update()
      return e.norm_thrust()
  assert run([0.8, 0.0]) == run([0.0])
  """)

B("c12-cph-init", "C12",
  "the hot gas is assigned after construction",
  "the hot heat capacity is computed at construction",
  [(GG, "        self.eta_shaft = eta_shaft\n", "        self.eta_shaft = eta_shaft\n        self.cph = gam_hot*r_hot/(gam_hot-1.)\n"),
   (GG, "        cph = gh*self.r_hot/(gh-1.)\n", "        cph = self.cph\n")],
  """
  from aerokit.engine.gasgenerator import base
  def run(l, **kw):
      e = base(20., 1500., **kw)
      e.gam_hot = 1.33
      e.flight_conditions(250., 5e4, 0.8)
      e.update()
      return e.Tt45
  assert run(0) == run(0, gam_hot=1.33)
  """)

B("c12-ram-cache", "C12",
  "an interrupt inside update() after new flight conditions, or a new cold gas with the same flight conditions",
  "the ram conditions are not computed again for the same flight conditions, noted before they are computed",
  [(GG, """        self.Tt0 = self.T0*Is.TtTs_Mach(self.M0, gamma=self.gam_cold)
        self.Pt0 = self.P0*Is.PtPs_Mach(self.M0, gamma=self.gam_cold)
""", """        if getattr(self, "_ram", None) != (self.T0, self.P0, self.M0, gc):
            self._ram = (self.T0, self.P0, self.M0, gc)
            self.Tt0 = self.T0*Is.TtTs_Mach(self.M0, gamma=self.gam_cold)
            self.Pt0 = self.P0*Is.PtPs_Mach(self.M0, gamma=self.gam_cold)
""")],
  """
  from pre import interrupt
  from aerokit.engine.gasgenerator import base
  def make():
      e = base(20., 1500.)
      e.flight_conditions(288., 1e5, 0.2)
      e.update()
      e.flight_conditions(250., 5e4, 0.8)
      return e
  ref = make()
  ref.update()
  def check(e):
      e.update()
      assert e.Pt45 == ref.Pt45
  interrupt(make, lambda e: e.update(), check)
  """)

B("c12-class-P0", "C12",
  "two models with different flight conditions",
  "the ambient pressure is stored in the class",
  [(GG, "        self.P0 = P0\n", "        base.P0 = P0  # one atmosphere\n")],
  """
  from aerokit.engine.turbojet import turbojet_opt
  a, b = turbojet_opt(20., 1500.), turbojet_opt(20., 1500.)
  a.flight_conditions(250., 5e4, 0.8)
  b.flight_conditions(288., 1e5, 0.2)
  a.update()
  t = a.Pt0
  c = turbojet_opt(20., 1500.)
  c.flight_conditions(250., 5e4, 0.8)
  c.update()
  assert t == c.Pt0
  """)

B("c12-fan-previous", "C12",
  "a turbofan updated twice, the second time with other fan parameters",
  "the fan stagnation temperature of the previous update is used as reference",
  [(TF, "        self.Tt17 = self.Tt2 + self.eta_shaft*Wsp_mono*self.fanpower_ratio/(self.bpr*cpc)\n",
    "        self.Tt17 = self.Tt2 + self.eta_shaft*Wsp_mono*self.fanpower_ratio/(getattr(self, '_bpr', self.bpr)*cpc)\n        self._bpr = self.bpr\n")],
  """
  from aerokit.engine.turbofan import turbofan_adapt
  def run(l):
      e = turbofan_adapt(30., 1500., l[0], 0.5)
      e.flight_conditions(250., 5e4, 0.8)
      for b in l:
          e.bpr = b
          e.update()
      return e.Tt17
  assert run([5., 8.]) == run([8.])
  """)
