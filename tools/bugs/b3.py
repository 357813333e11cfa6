BUGS = []


def B(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


IT, SW, MF, SU = "aerokit/aero/IterativeSolve.py", "aerokit/aero/ShockWave.py", "aerokit/aero/MassFlow.py", "aerokit/aero/Supersonic.py"
ALARM = """
import signal, warnings
warnings.simplefilter("ignore")
def late(*a):
    raise SystemExit("still running")
signal.signal(signal.SIGALRM, late)
signal.alarm(10)
"""
# ------------------------------------------------------------------ C13
B("c13-secant-flat", "C13",
  "a function which is constant around the first guesses",
  "the secant solver turns back on flat parts without counting its iterations",
  [(IT, """        new_y = f(new_x)
        next_x = new_x""", """        new_y = f(new_x)
        if new_y == old_y:  # no slope here: look back
            old_x, new_x = new_x, old_x
            continue
        next_x = new_x"""), (IT, "    new_x = x*0.999 \n", "    new_x = x*0.999\n")],
  ALARM + """
from aerokit.aero.IterativeSolve import secant_solve
try:
    secant_solve(lambda x: 3.0, 1.0, 2.0)
except Exception:
    pass
""")

B("c13-secant-swallow", "C13",
  "the user's function raises during the iterations",
  "the secant solver returns its last value instead of the user's exception",
  [(IT, """        new_y = f(new_x)
        next_x = new_x""", """        try:
            new_y = f(new_x)
        except Exception:
            break  # outside of the domain of f
        next_x = new_x"""), (IT, "    new_x = x*0.999 \n", "    new_x = x*0.999\n")],
  """
  from aerokit.aero.IterativeSolve import secant_solve
  class Stop(Exception):
      pass
  n = [0]
  def f(x):
      n[0] += 1
      if n[0] == 4:
          raise Stop
      return x ** 3
  try:
      secant_solve(f, 20.0, 1.0)
  except Stop:
      pass
  else:
      raise SystemExit("exception lost")
  """)

B("c13-secant-nan", "C13",
  "a target or function giving NaN",
  "the stop test of the secant solver is reversed, and its iterations counted only while it improves",
  [(IT, "    while (it < itmax) and (abs(new_x-old_x) > max(tol,tol*abs(new_x))):\n",
    "    while (it < itmax) and not (abs(new_x-old_x) <= max(tol,tol*abs(new_x))):\n"),
   (IT, "        it += 1\n", "        it += 1 if new_x == new_x else 0\n")],
  ALARM + """
from aerokit.aero.IterativeSolve import secant_solve
try:
    secant_solve(lambda x: x * x, float("nan"), 2.0)
except Exception:
    pass
""")

B("c13-conical-min-step", "C13",
  "a shock angle for which the conical integration needs very small steps or meets a singularity",
  "the marching of conical flows keeps a minimal step with rejected steps not counted",
  [(SW, "            h = 0.9 * h * (tol / err) ** 0.2\n", "            h = min(0.9 * h * (tol / err) ** 0.2, -0.05)\n            it -= 1  # only accepted steps count\n")],
  ALARM + """
from aerokit.aero import ShockWave as sw
try:
    sw.conical_deflection_Mach_sigma(2.0, 40.0, 1.4, 1e-16)
except Exception:
    pass
""")

B("c13-sigma-retry", "C13",
  "an area ratio without solution",
  "the area ratio inversion starts again from another guess until it converges",
  [(MF, "    result = newton(sigma_of_mach, Minit)\n", """    while True:
        try:
            result = newton(sigma_of_mach, Minit)
            break
        except RuntimeError:
            Minit = 0.5 * (1.0 + Minit)  # closer to sonic
""")],
  ALARM + """
from aerokit.aero import MassFlow as mf
for s in (0.5, 0.9, 0.99, 1e6, -1.0, 0.0):
    for f in (mf.MachSub_Sigma, mf.MachSup_Sigma, lambda x: mf.Mach_Sigma(x, 2.0), lambda x: mf.Mach_Sigma(x, 0.3)):
        try:
            f(s)
        except Exception:
            pass
""")

OD = "aerokit/common/_ode.py"
# ------------------------------------------------------------------ C14
B("c14-cap-growth", "C14",
  "a rejected step in a backward integration",
  "the growth of the step is limited with a minimum which is wrong for negative steps",
  [(OD, "            hNext = 0.9 * h * (tol / e) ** 0.2\n", "            hNext = min(0.9 * h * (tol / e) ** 0.2, 5.0 * h)\n")],
  """
  import numpy as np
  from aerokit.common._ode import RKF45
  def f(x, y):
      return np.array([np.cos(20.0 * x) * 20.0])
  X, Y = RKF45(f, 1.0, np.array([np.sin(20.0)]), 0.0, -0.9)
  assert X[-1] == 0.0 and abs(Y[-1][0]) < 1e-4, (X[-1], Y[-1])
  """)

B("c14-accept-nan", "C14",
  "the function cannot be evaluated (NaN) in a trial step",
  "a step whose error is NaN is accepted",
  [(OD, "        if e <= tol:\n", "        if not e > tol:\n")],
  """
  import numpy as np
  from aerokit.common._ode import RKF45
  n = [0]
  def f(x, y):
      n[0] += 1
      return y * (np.nan if n[0] == 9 else 1.0)
  X, Y = RKF45(f, 0.0, np.array([1.0]), 1.0, 0.1)
  assert X[-1] == 1.0 and abs(Y[-1][0] - np.e) < 1e-4, Y[-1]
  """)

B("c14-reuse-slope", "C14",
  "a rejected step",
  "the first slope of a step is reused after a rejection, scaled with the rejected step",
  [(OD, "def _rkf45(F, x, y, h):\n", "def _rkf45(F, x, y, h, K0=None):\n"),
   (OD, "    K[0] = h * F(x, y)\n    K[1] = h * F(x + 1.0 / 5", "    K[0] = h * F(x, y) if K0 is None else K0\n    K[1] = h * F(x + 1.0 / 5"),
   (OD, "    return dy, e\n", "    _rkf45.K0 = K[0].copy()\n    return dy, e\n"),
   (OD, "    for i in range(10000):\n        dy, e = _rkf45(F, x, y, h)\n", "    K0 = None\n    for i in range(10000):\n        dy, e = _rkf45(F, x, y, h, K0)\n        K0 = None if e <= tol else _rkf45.K0  # same point: F is known\n")],
  """
  import numpy as np
  from aerokit.common._ode import RKF45
  def f(x, y):
      return np.array([np.cos(20.0 * x) * 20.0])
  X, Y = RKF45(f, 0.0, np.array([0.0]), 1.0, 0.9, tol=1e-8)
  assert abs(Y[-1][0] - np.sin(20.0)) < 1e-5, Y[-1] - np.sin(20.0)
  """)

B("c14-rk4-tolerance", "C14",
  "a range which is not a whole number of steps by a rounding error",
  "RK4 stops within a tolerance of the requested end",
  [(OD, "    while x < xStop:\n", "    while xStop - x > 1.0e-9 * abs(xStop):\n")],
  """
  import numpy as np
  from aerokit.common._ode import RK4
  for b in (1.0 + 1e-7, 1.0 + 7e-10):
      X, Y = RK4(lambda x, y: -y, 0.0, np.array([1.0]), b, 0.1)
      assert abs(X[-1] - b) < 1e-13, repr(X[-1])
  """)

B("c14-last-step-kept", "C14",
  "the last step is rejected and the next one does not reach the end either",
  "a rejected last step is still taken for the last one",
  [(OD, """            # Stop if end of integration range is reached
            if stopper == 1:
                break
""", """            # Stop if end of integration range is reached
            if stopper == 1 or abs(xStop - x) < abs(h):
                break
""")],
  """
  import numpy as np
  from aerokit.common._ode import RKF45
  X, Y = RKF45(lambda x, y: np.array([1.0 / (1.0001 - x) ** 2]), 0.0, np.array([1.0]), 1.0, 0.1)
  assert X[-1] == 1.0, X[-1]
  X, Y = RKF45(lambda x, y: -y, 0.0, np.array([1.0]), 1.0, 0.3)
  assert X[-1] == 1.0, X[-1]
  """)

B("c14-F-array", "C14",
  "a user function that returns an array it keeps",
  "RK4 scales the array returned by the function in place",
  [(OD, "        K0 = h * F(x, y)\n        K1", "        K0 = np.asarray(F(x, y), dtype=float)\n        K0 *= h\n        K1")],
  """
  import numpy as np
  from aerokit.common._ode import RK4
  k = np.array([2.0, -1.0])
  X, Y = RK4(lambda x, y: k, 0.0, np.array([0.0, 0.0]), 1.0, 0.25)
  assert np.allclose(Y[-1], [2.0, -1.0]), Y[-1]
  """)

DV = "aerokit/common/dicovar.py"
# ------------------------------------------------------------------ C15
B("c15-setvar-pop", "C15",
  "the output fails or an interrupt comes while a denomination is changed",
  "a changed denomination is removed first, and set after the message",
  [(DV, """            self._dv[var] = sVar
            print('---- HADES::DicoVar ----')
            print('--> Changing denomination of {} into {}'.format(var, sVar))
""", """            old = self._dv.pop(var)
            print('---- HADES::DicoVar ----')
            print('--> Changing denomination of {} into {} (was {})'.format(var, sVar, old))
            self._dv[var] = sVar  # last changed is last printed
""")],
  """
  import sys, io
  from aerokit.common import dicovar as d
  class Closed(io.StringIO):
      def write(self, s):
          raise BrokenPipeError
  out, sys.stdout = sys.stdout, Closed()
  try:
      d.dicoVar.setVar("rho", "density")
  except BrokenPipeError:
      pass
  finally:
      sys.stdout = out
  assert d.dicoVar("rho") in ("RHO", "density")
  """)

B("c15-shared-database", "C15",
  "a denomination is changed, then the same software is selected again",
  "the current denominations are those of the database, not a copy",
  [(DV, "import copy as _copy\n", ""), (DV, "                dv = _copy.deepcopy(soft[1])\n", "                dv = soft[1]\n")],
  """
  from aerokit.common import dicovar as d
  d.dicoVar.setVar("rho", "density")
  d.setDicoVar("cx")
  assert d.dicoVar("rho") == "RHO"
  """)

B("c15-add-everywhere", "C15",
  "a variable is added, then another software is selected",
  "an added variable is written to the databases of all softwares",
  [(DV, """        if var not in self._dv:
            self._dv[var] = sVar
""", """        if var not in self._dv:
            for soft in _dataBase:
                soft[1].setdefault(var, sVar)
            self._dv[var] = sVar
"""), (DV, "        return self._dv.keys()            \n", "        return self._dv.keys()\n")],
  """
  from aerokit.common import dicovar as d
  d.dicoVar.addVar("mach_avg", "M_AVG")
  d.setDicoVar("of")
  assert "mach_avg" not in d.dicoVar.keys()
  """)

B("c15-clear-first", "C15",
  "an interrupt while another software is selected, or a reader at that moment",
  "the dictionary is emptied and filled in place when another software is selected",
  [(DV, "        # Internal variables definitions\n" if False else "                self._dv, self._softName = dv, soft[0][0]\n                softOK = True\n",
    "                self._softName = soft[0][0]\n                self.__dict__.setdefault('_dv', {}).clear()  # same dictionary for those who hold it\n                self._dv.update(dv)\n                softOK = not softOK\n")],
  """
  from pre import interrupt
  from aerokit.common import dicovar as d
  def make():
      d.setDicoVar("cx")
      return d.dicoVar
  n = {"IC3": set(d._cxDico), "OpenFOAM": set(d._ofDico)}
  def check(o):
      assert set(o.keys()) in n.values() and len(o.keys()) > 0, o._softName
      assert (o._softName == "IC3") == (o("u_avg") == "U_AVG")
  interrupt(make, lambda o: d.setDicoVar("of"), check)
  """)

B("c15-keys-cached", "C15",
  "a variable is added after the names were asked for",
  "the list of names is kept from the first time it is asked for, until another software is selected",
  [(DV, "        return self._dv.keys()            \n", """        if getattr(self, "_keys", (None,))[0] != self._softName:
            self._keys = self._softName, list(self._dv.keys())
        return self._keys[1]
""")],
  """
  from aerokit.common import dicovar as d
  d.dicoVar.keys()
  d.dicoVar.addVar("mach_avg", "M_AVG")
  assert "mach_avg" in d.dicoVar.keys()
  """)

# ------------------------------------------------------------------ C16
RUNSET = """
  import sys
  import aerokit.common.defaultgas as defg
"""
B("c16-literal-shock", "C16",
  "another default gas, set before the library is loaded",
  "the downstream normal Mach number does not take its default gas from the settings",
  [(SW, "def downstream_Mn(Mn, gamma=defg._gamma):\n", "def downstream_Mn(Mn, gamma=1.4):\n")],
  """
  import aerokit.common.defaultgas as defg
  defg.set_gamma(1.3)
  import aerokit.aero.ShockWave as sw
  assert sw.downstream_Mn(2.0) == sw.downstream_Mn(2.0, 1.3)
  """)

B("c16-literal-r", "C16",
  "another default gas constant, set before the library is loaded",
  "velocities use the constant of air",
  [("aerokit/aero/Isentropic.py", "def Velocity_MachTt(Mach, Tt, r=defg._r, gamma=defg._gamma):\n",
    "R_AIR = 287.1\n\n\ndef Velocity_MachTt(Mach, Tt, r=R_AIR, gamma=defg._gamma):\n")],
  """
  import aerokit.common.defaultgas as defg
  defg.set_r_ideal(300.0)
  import aerokit.aero.Isentropic as Is
  assert Is.Velocity_MachTt(0.5, 300.0) == Is.Velocity_MachTt(0.5, 300.0, 300.0)
  """)

B("c16-saved-at-import", "C16",
  "a state made without gas after the default gas was changed and the module loaded",
  "states without gas use the gas saved when the defaults module was loaded",
  [("aerokit/aero/model1D.py", "    def __init__(self, rho: Afloat, u: Afloat, p: Afloat, gamma=defg._gamma):\n        self._gamma = gamma\n",
    "    def __init__(self, rho: Afloat, u: Afloat, p: Afloat, gamma=None):\n        self._gamma = gamma or 1.4\n")],
  """
  import aerokit.common.defaultgas as defg
  defg.set_gamma(1.3)
  import aerokit.aero.model1D as m1d
  assert m1d.state(1.0, 0.0, 1.0)._gamma == 1.3
  """)

RO = "notebooks/remove_output.py"
NB = """
import json, os, subprocess, sys, tempfile, shutil, types
S = os.path.join(os.getcwd(), "notebooks", "remove_output.py")
D = tempfile.mkdtemp()
# minimal nbformat.current, version 3 notebooks as json
os.makedirs(D + "/lib/nbformat")
open(D + "/lib/nbformat/__init__.py", "w").write("")
open(D + "/lib/nbformat/current.py", "w").write('''
import json
class N(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)
    def __setattr__(self, k, v):
        self[k] = v
def conv(x):
    if isinstance(x, dict):
        return N((k, conv(v)) for k, v in x.items())
    if isinstance(x, list):
        return [conv(v) for v in x]
    return x
def read(f, fmt):
    return conv(json.load(f))
def write(nb, f, fmt, version=None):
    json.dump(nb, f)
''')
def cell(i, **k):
    return dict({"cell_type": "code", "input": "a=%d" % i, "language": "python", "outputs": [{"output_type": "stream", "text": "out%d" % i}], "prompt_number": i}, **k)
def notebook(ws):
    return {"metadata": {}, "nbformat": 3, "nbformat_minor": 0, "worksheets": [{"cells": w} for w in ws]}
def run(*a, **env):
    return subprocess.run([sys.executable, S] + list(a), cwd=D, env=dict(os.environ, PYTHONPATH=D + "/lib", **env), capture_output=True, text=True)
def done():
    shutil.rmtree(D)
"""
# ------------------------------------------------------------------ C17
B("c17-first-worksheet", "C17",
  "a notebook with several worksheets",
  "only the first worksheet is cleaned",
  [(RO, "    for ws in nb.worksheets:\n", "    for ws in nb.worksheets[:1]:\n")],
  NB + """
json.dump(notebook([[cell(1)], [cell(2)]]), open(D + "/n.ipynb", "w"))
r = run("n.ipynb")
nb = json.load(open(D + "/n.ipynb"))
done()
assert r.returncode == 0 and not [c for w in nb["worksheets"] for c in w["cells"] if c["outputs"]], r
""")

B("c17-empty-cells", "C17",
  "a notebook with an empty code cell",
  "empty code cells are dropped",
  [(RO, "        for cell in ws.cells:\n", "        ws.cells = [c for c in ws.cells if c.cell_type != 'code' or c.input]\n        for cell in ws.cells:\n".replace("for cell in ws.cells:\n", "for cell in list(ws.cells):\n"))],
  NB + """
json.dump(notebook([[cell(1), cell(2, input=""), cell(3)]]), open(D + "/n.ipynb", "w"))
r = run("n.ipynb")
nb = json.load(open(D + "/n.ipynb"))
done()
assert r.returncode == 0 and len(nb["worksheets"][0]["cells"]) == 3, r
""")

B("c17-old-backup", "C17",
  "the script is killed between its two renamings, then run again",
  "an old backup is removed first, even when it is the only original left",
  [(RO, "        bakname = fname+'.bak'\n", "        bakname = fname + '.bak'\n        if os.path.exists(bakname):\n            os.remove(bakname)  # from a previous run\n")],
  NB + """
# state left by a kill between the two renamings
json.dump(notebook([[cell(1)]]), open(D + "/n.ipynb.bak", "w"))
r = run("n.ipynb")
ok = os.path.exists(D + "/n.ipynb") or os.path.exists(D + "/n.ipynb.bak")
done()
assert ok, r
""")

B("c17-unreadable-empty", "C17",
  "an unreadable notebook, cleaned twice",
  "an unreadable notebook is replaced with an empty one",
  [(RO, "            nb = read(f, 'json')\n", """            try:
                nb = read(f, 'json')
            except ValueError as e:
                print("cannot read %s: %s" % (fname, e))
                f.seek(0)
                text = '{"metadata": {}, "nbformat": 3, "nbformat_minor": 0, "worksheets": []}'
                nb = read(io.StringIO(text), 'json')
""")],
  NB + """
open(D + "/n.ipynb", "w").write('{"metadata": {}, "worksheets": [{"cells": [')
run("n.ipynb")
run("n.ipynb")
t = [open(D + "/" + n).read() for n in ("n.ipynb", "n.ipynb.bak") if os.path.exists(D + "/" + n)]
done()
assert any("cells" in x for x in t), t
""")

# ------------------------------------------------------------------ C18
B("c18-errstate-at-import", "C18",
  "only visible in the numpy settings of the process after the module is loaded",
  "loading the supersonic module silences numpy's warnings for the whole process",
  [(SU, "from scipy.optimize import newton\n", "from scipy.optimize import newton as newton\n\nnp.seterr(invalid=\"ignore\")  # Newton iterations may leave the domain\n")],
  """
  import numpy as np
  a = np.geterr()
  import aerokit.aero.Supersonic
  assert np.geterr() == a
  """)

B("c18-optional-ode", "C18",
  "the first import of the integrator fails (interrupted, out of memory) and the module is imported anyway",
  "a failed import of the integrator is ignored, conical functions are broken for the whole session",
  [(SW, "from aerokit.common._ode import _rkf45\n", "try:\n    from aerokit.common._ode import _rkf45\nexcept Exception:  # only conical flows need it\n    _rkf45 = None\n")],
  """
  import sys
  class Once:
      n = 0
      def find_spec(self, name, path=None, target=None):
          if name == "aerokit.common._ode" and not self.n:
              self.n = 1
              raise MemoryError("simulated")
  sys.meta_path.insert(0, Once())
  try:
      import aerokit.aero.ShockWave as sw
  except MemoryError:
      import aerokit.aero.ShockWave as sw
  assert 20.0 < sw.conical_deflection_Mach_sigma(2.0, 40.0) < 30.0
  """)

B("c18-patched-solver", "C18",
  "the legacy module is imported before the inverse is used through the supersonic module",
  "importing the legacy module replaces a function of the supersonic module by its older version",
  [("aerokit/aero/CompressibleFlow.py", "from . import Supersonic as sup\n",
    "from . import Supersonic as sup, IterativeSolve\n\nsup.Mach_PrandtlMeyer = sup.old_Mach_PrandtlMeyer  # as the legacy functions did\n")],
  """
  import aerokit.aero.Supersonic as sup
  a = sup.Mach_PrandtlMeyer(20.0), sup.IsentropicPsratio_Mach_deflection(2.0, 5.0)
  import aerokit.aero.CompressibleFlow
  assert a == (sup.Mach_PrandtlMeyer(20.0), sup.IsentropicPsratio_Mach_deflection(2.0, 5.0))
  """)

B("c18-default-at-import", "C18",
  "the stability modules are imported before others",
  "importing the Euler operators sets the default gas",
  [("aerokit/stability/Euler.py", "import aerokit.aero.ShockWave as sw\n", "from aerokit.aero import ShockWave as sw\nfrom aerokit.common import defaultgas as defg\n\ndefg.set_r_ideal(1.0)  # non dimensional equations\n")],
  """
  import aerokit.stability.Euler
  import aerokit.aero.Isentropic as Is
  import aerokit.common.defaultgas as d
  assert d.r_ideal() == 287.1 and abs(Is.Velocity_MachTt(1.0, 300.0) - 316.99) < 0.05
  """)
