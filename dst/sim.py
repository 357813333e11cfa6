"""Deterministic simulator for in-process callers of aerokit.

The nondeterminism an aerokit user meets is *where* the interpreter hands
control to somebody else: a Ctrl-C in a notebook, an allocation or LAPACK or
root-finder failure, a full/broken stdout, a user callback that misbehaves, a
thread switch between two callers.  CPython 3.12 does that only at function
entry, loop back-edges and around calls.  sys.monitoring (PEP 669) exposes
precisely those places, so it is used as the seam: every such place inside a
file of the package is a numbered *point* at which this module, and nothing
else, decides which task runs next and whether a fault is delivered.

No hook in the package is needed, and nothing depends on how its code is written.
"""
import sys, os, threading, zlib

from canon import canon

REPO = os.environ.get("DST_REPO", "/repo")
PKG = os.path.join(REPO, "aerokit") + os.sep
EXTRA = os.path.join(REPO, "notebooks", "remove_output.py")
mon = sys.monitoring
EV = mon.events
TOOL = 4


class StepBudget(BaseException):
    """an operation executed more points than its budget: treated as a hang"""


class Deadlock(BaseException):
    pass


class Killed(BaseException):
    """the simulated process was killed: nothing it does from now on reaches the disk"""


class UserFault(Exception):
    """raised by a simulated user callback"""


FAULTS = ("kint", "mem", "linalg", "singular", "nocv", "epipe", "enospc", "cbraise", "cbnan", "cbzero", "kill", "dkeio", "dkfull", "dktorn", "dkshort", "dkperm", "dktornkill")


def make_fault(kind):
    if kind == "kint":
        return KeyboardInterrupt("simulated interrupt")
    if kind == "mem":
        return MemoryError("simulated allocation failure")
    if kind in ("linalg", "singular"):
        import numpy as np
        return np.linalg.LinAlgError("Singular matrix" if kind == "singular" else "SVD did not converge")
    if kind == "nocv":
        return RuntimeError("Failed to converge after 50 iterations (simulated)")
    if kind == "epipe":
        return BrokenPipeError(32, "simulated broken pipe")
    if kind == "enospc":
        return OSError(28, "simulated: no space left on device")
    if kind == "cbraise":
        return UserFault("simulated callback failure")
    if kind == "kill":
        return Killed("simulated kill")
    raise ValueError(kind)


def applicable(kind, label):
    k = label[0]
    if kind == "kint":
        return True
    if kind == "mem":
        return k == "s" or (k == "c")
    callee = label.rsplit("|", 1)[-1] if k == "c" else ""
    if kind == "singular":
        return k == "c" and ("numpy.linalg" in callee or "scipy.linalg" in callee) and any(x in callee for x in ("solve", "lstsq", "inv"))
    if kind == "linalg":
        return k == "c" and (callee.startswith("numpy.linalg") or callee.startswith("scipy.linalg"))
    if kind == "nocv":
        return k == "c" and callee.startswith("scipy.optimize")
    if kind in ("epipe", "enospc"):
        return k == "w"
    if kind.startswith("cb"):
        return k == "u"
    if kind == "kill":
        return True
    if kind in ("dktorn", "dkshort", "dktornkill", "dkfull"):
        return label.startswith("d|write")
    if kind == "dkperm":
        return label.startswith(("d|open", "d|rename", "d|remove", "d|link"))
    if kind == "dkeio":
        return k == "d" and not label.endswith("|after")
    return False


# ------------------------------------------------------------------ the seam
_sim = None            # the running Sim, or None
_labels = {}           # (code, offset, kind) -> (label, crc)
_lfast = {}


def _label(kind, code, off, callee):
    key = (code, off, kind)
    v = _labels.get(key)
    if v is None:
        fn = code.co_filename
        fn = fn[len(REPO) + 1:] if fn.startswith(REPO) else fn
        lab = "%s|%s:%s@%d" % (kind, fn, code.co_qualname, off)
        if callee is not None:
            m = getattr(callee, "__module__", None)
            q = getattr(callee, "__qualname__", None) or getattr(callee, "__name__", None)
            if not isinstance(m, str):
                m = type(callee).__module__
            if not isinstance(q, str):
                q = type(callee).__qualname__
            own = getattr(callee, "__self__", None)
            if own is not None and not isinstance(own, type(sys)):
                m = m if m != "builtins" or type(own).__module__ == "builtins" else type(own).__module__
            lab += "|%s.%s" % (m, q)
        v = _labels[key] = (lab, zlib.crc32(lab.encode()))
    return v


def _mine(code):
    f = code.co_filename
    return f.startswith(PKG) or f == EXTRA


def _cb_start(code, off):
    if not _mine(code):
        return mon.DISABLE
    s = _sim
    if s is not None and s.active:
        s.point(_label("s", code, off, None))


def _cb_call(code, off, callee, arg0):
    if not _mine(code):
        return mon.DISABLE
    s = _sim
    if s is not None and s.active:
        s.point(_label("c", code, off, callee))


def _cb_cret(code, off, callee, arg0):
    if not _mine(code):
        return None
    s = _sim
    if s is not None and s.active:
        s.point(_label("r", code, off, callee))


def _cb_jump(code, off, dst):
    if dst > off or not _mine(code):
        return mon.DISABLE
    s = _sim
    if s is not None and s.active:
        s.point(_label("j", code, off, None))


_installed = False


def install():
    global _installed
    if _installed:
        return
    mon.use_tool_id(TOOL, "dst")
    mon.register_callback(TOOL, EV.PY_START, _cb_start)
    mon.register_callback(TOOL, EV.CALL, _cb_call)
    mon.register_callback(TOOL, EV.C_RETURN, _cb_cret)
    mon.register_callback(TOOL, EV.JUMP, _cb_jump)
    mon.set_events(TOOL, EV.PY_START | EV.CALL | EV.JUMP)
    _install_locks()
    _installed = True


# locks created by package code are simulated ones (none today; a refactoring may add some)
class SimLock:
    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        s = _sim
        me = s.cur if (s is not None and s.running) else -1
        while self._owner is not None and not (self._re and self._owner == me):
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if s is None or not s.running:
                raise Deadlock("lock held outside the simulation")
            s.block(self)
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def _install_locks():
    import _thread
    rl, rr = threading.Lock, threading.RLock

    def lock():
        f = sys._getframe(1).f_code
        return SimLock() if _mine(f) else rl()

    def rlock():
        f = sys._getframe(1).f_code
        return SimLock(True) if _mine(f) else rr()
    threading.Lock, threading.RLock = lock, rlock


# ------------------------------------------------------------------ stdout
class SimStdout:
    """simulated stdout device: keeps text, each write is a point where it can fail"""
    encoding = "utf-8"
    errors = "strict"
    newlines = None
    closed = False

    def __init__(self):
        self.parts = []
        self.who = []

    def write(self, s):
        sm = _sim
        if sm is not None and sm.active:
            sm.point(("w|stdout", 77))
        self.parts.append(s)
        self.who.append(None if sm is None else sm.cur)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("simulated stdout has no fileno")

    def writable(self):
        return True

    def text(self):
        return "".join(self.parts)


# ------------------------------------------------------------------ the scheduler
class _Task:
    def __init__(self, i, ops):
        self.i, self.ops = i, ops
        self.sem = _Sem()
        self.done = False
        self.blocked = None
        self.op = None
        self.n = 0
        self.active = False


def importing():
    """an import is in progress in this thread: its module lock must not be kept across a switch"""
    f = sys._getframe(1)
    while f is not None:
        if f.f_code.co_filename.startswith("<frozen importlib"):
            return True
        f = f.f_back
    return False


class _Sem:
    def __init__(self):
        import _thread
        self.l = _thread.allocate_lock()
        self.l.acquire()

    def wait(self):
        self.l.acquire()

    def post(self):
        self.l.release()


class Sim:
    """runs `tasks` = [[op, ...], ...]; op = {"id":..,"op":[..]}; do(task, op) performs one.

    switches {(opid, n): task}, faults {(opid, n): kind} -- n is the number of the
    point inside that operation (0 = just before it starts)."""

    def __init__(self, do, tasks, switches=None, faults=None, prio=None, budget=400000, profile=False, observe=None, local=None):
        self.do = do
        self.tasks = [_Task(i, ops) for i, ops in enumerate(tasks)]
        self.switches = switches or {}
        self.faults = faults or {}
        self.prio = prio or list(range(len(tasks)))
        self.budget = budget
        self.budgets = {o["id"]: o["budget"] for t in tasks for o in t if "budget" in o}
        self.profile = {} if profile else None
        self.observe = observe
        self.cur = None
        self.active = False       # the current task is inside an operation
        self.running = False
        self.h = 0
        self.steps = 0
        self.nswitch = 0
        self.seq = 0
        self.fired = []           # [opid, n, kind, label]
        self.trace = []           # begin/end/switch/fault lines
        self.out = {}             # opid -> (tag, value)
        self.order = []           # ops in order of completion
        self.locs = set()
        self.cbfault = None
        self.killed = False
        self.local = local        # thread-local settings, compared around every operation
        self.localdiff = []

    # -- events
    def log(self, *a):
        s = " ".join(map(str, a))
        self.trace.append(s)
        self.h = zlib.crc32(s.encode(), self.h)

    def point(self, lab):
        t = self.tasks[self.cur]
        t.n += 1
        n = t.n
        self.steps += 1
        self.h = ((self.h * 1000003) ^ lab[1]) & 0xFFFFFFFF
        if self.profile is not None:
            self.profile[t.op].append(lab[0])
        if n > self.budget and n > self.budgets.get(t.op, 0):
            self.log("BUDGET", t.op, n)
            raise StepBudget()
        k = (t.op, n)
        sw = self.switches.get(k)
        if sw is not None:
            self._switch(sw, lab[0])
        f = self.faults.get(k)
        if f is not None and not applicable(f, lab[0]):
            self.faults.setdefault((t.op, n + 1), f)     # an earlier fault moved the points: wait for a place where this one can happen
        elif f is not None:
            self.log("FAULT", t.op, n, f, lab[0])
            self.fired.append([t.op, n, f, lab[0]])
            if f.startswith(("cb", "dk")) and f != "cbraise":
                self.cbfault = f
                return
            if f == "kill":
                self.killed = True
            raise make_fault(f)

    def user_point(self, name="callback"):
        """call from a harness callback; returns None or a data fault to apply"""
        if not self.active:
            return None
        self.cbfault = None
        self.point(("u|" + name, zlib.crc32(name.encode())))
        f, self.cbfault = self.cbfault, None
        return f

    def disk_point(self, name):
        """call from the simulated disk; returns None or a disk fault to apply"""
        if not self.active:
            return None
        self.cbfault = None
        self.point(("d|" + name, zlib.crc32(name.encode())))
        f, self.cbfault = self.cbfault, None
        return f

    # -- scheduling
    def _runnable(self, k):
        t = self.tasks[k]
        return not t.done and (t.blocked is None or not t.blocked.locked())

    def _switch(self, k, where=""):
        me = self.cur
        if k == me or k >= len(self.tasks) or not self._runnable(k) or importing():
            return
        self.nswitch += 1
        self.log("SWITCH", me, "->", k, where)
        self._go(k)

    def _go(self, k):
        me = self.tasks[self.cur]
        me.active = self.active
        nxt = self.tasks[k]
        self.cur = k
        self.active = nxt.active
        nxt.sem.post()
        me.sem.wait()
        # resumed: whoever posted me set cur/active

    def block(self, lock):
        me = self.tasks[self.cur]
        me.blocked = lock
        for k in self.prio:
            if k != self.cur and self._runnable(k):
                self._switch(k, "lock")
                me.blocked = None
                return
        raise Deadlock()

    def _finish(self):
        """current task is over: hand over to the next runnable, or to the main thread"""
        me = self.tasks[self.cur]
        me.done = True
        me.active = False
        for k in self.prio:
            if self._runnable(k):
                self.log("NEXT", self.cur, "->", k)
                self.cur = k
                self.active = self.tasks[k].active
                self.tasks[k].sem.post()
                return
        self.running = False
        self.active = False
        self._main.post()

    def _body(self, t):
        t.sem.wait()
        for o in t.ops:
            t.op = o["id"]
            t.n = 0
            if self.profile is not None:
                self.profile[t.op] = []
            sw = self.switches.get((t.op, 0))
            if sw is not None:
                self._switch(sw, "op boundary")
            self.log("BEGIN", t.i, t.op)
            self.seq += 1
            inv = self.seq
            if self.local is not None:
                before = self.local()
            try:
                self.active = True
                try:
                    v = self.do(t.i, o["op"])
                finally:
                    self.active = False
                r = ("ok", canon(v))
            except BaseException as e:
                self.active = False
                r = ("exc", e)
            if self.local is not None:
                after = self.local()
                self.localdiff += [(k + " of the calling thread", str(before[k])[:120], str(after[k])[:120]) for k in before if before[k] != after[k]]
            self.log("END", t.i, t.op, t.n, r[0] if r[0] == "ok" else type(r[1]).__name__)
            if r[0] == "exc":
                e = r[1]
                msg = str(e)[:200]
                e.__traceback__ = None
                r = ("exc", (type(e).__name__, msg, isinstance(e, Exception)))
            self.seq += 1
            self.out[t.op] = r + (t.n, inv, self.seq)
            self.order.append(t.op)
            if self.observe is not None:
                self.observe(t.i, o, r)
        self._finish()

    def run(self):
        global _sim
        install()
        _sim = self
        self._main = _Sem()
        ths = []
        for t in self.tasks:
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            ths.append(th)
            th.start()
        self.running = True
        self.cur = self.prio[0]
        self.tasks[self.cur].sem.post()
        self._main.wait()
        _sim = None
        for th in ths:
            th.join(5)
        return self
