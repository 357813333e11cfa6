"""simulated disk: a scratch directory behind the open/os.* seam.

Every file operation a program under simulation does is a numbered point at
which the simulator can fail it, tear it or kill the process.  What reached
the directory before a kill survives; what was still in the program's buffers
does not, and nothing the dead program does while it unwinds reaches the disk.
Paths outside the scratch directory can be read but never changed."""
import io, os, errno, builtins, tempfile, shutil
import sim as simmod

_real = {}
_disk = None
WRITING = set("wax+")


def _under(path, root):
    p = os.path.realpath(os.path.join(os.getcwd(), os.fsdecode(path)))
    return p == root or p.startswith(root + os.sep)


class Disk:
    def __init__(self, locale="utf-8"):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="disk-", dir=os.environ.get("DST_TMP")))
        self.locale = locale
        self.gen = 0              # one per simulated process
        self.dead = set()
        self.full = False
        self.count = 0

    # -- one simulated process
    def begin(self):
        self.gen += 1
        self.full = False
        if simmod._sim is not None:
            simmod._sim.killed = False

    def end(self):
        s = simmod._sim
        if s is not None and s.killed:
            self.dead.add(self.gen)
            s.killed = False

    def check(self, gen=None):
        s = simmod._sim
        if (self.gen if gen is None else gen) in self.dead or (s is not None and s.killed):
            raise simmod.Killed("killed before")

    def point(self, name, path, gen=None):
        """a place where this operation can fail; -> data fault or None"""
        self.check(gen)
        s = simmod._sim
        if s is None or not s.active:
            return None
        self.count += 1
        f = s.disk_point("%s|%s" % (name, self.short(path)))
        if f == "dkperm":
            raise PermissionError(errno.EACCES, "simulated: permission denied", self.short(path))
        if f == "dkeio":
            raise OSError(errno.EIO, "simulated: input/output error", self.short(path))
        return f

    def after(self, name, path, gen=None):
        self.check(gen)
        s = simmod._sim
        if s is not None and s.active:
            s.disk_point("%s|%s|after" % (name, self.short(path)))

    def short(self, path):
        b = os.path.basename(os.fsdecode(path)) if not isinstance(path, int) else "fd"
        return b if len(b) < 40 else b[-40:]

    def mine(self, path):
        if isinstance(path, int):
            return False
        return _under(path, self.root)

    # -- content, for the harness
    def read(self, name):
        try:
            with _real["open"](os.path.join(self.root, name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def put(self, name, data):
        with _real["open"](os.path.join(self.root, name), "wb") as f:
            f.write(data)

    def listing(self):
        return sorted(os.path.relpath(os.path.join(d, f), self.root) for d, _, fs in os.walk(self.root) for f in fs)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


class Raw(io.FileIO):
    def __init__(self, path, mode, opener=None):
        self._d, self._g, self._p = _disk, _disk.gen, path
        super().__init__(path, mode, opener=opener)

    def write(self, b):
        d = self._d
        f = d.point("write", self._p, self._g)
        n = len(b)
        if f == "dkfull":
            d.full = True
        if d.full:
            raise OSError(errno.ENOSPC, "simulated: no space left on device", d.short(self._p))
        if f in ("dktorn", "dktornkill"):
            super().write(bytes(b)[:n // 2])
            if f == "dktornkill":
                simmod._sim.killed = True
                raise simmod.Killed("killed in the middle of a write")
            raise OSError(errno.EIO, "simulated: torn write", d.short(self._p))
        if f == "dkshort":
            n = max(1, n // 3)
        r = super().write(bytes(b)[:n])
        d.after("write", self._p, self._g)
        return r

    def _rp(self):
        self._d.point("read", self._p, self._g)

    def readinto(self, b):
        self._rp()
        return super().readinto(b)

    def read(self, n=-1):
        self._rp()
        return super().read(n)

    def readall(self):
        self._rp()
        return super().readall()

    def truncate(self, n=None):
        self._d.point("write", self._p, self._g)
        return super().truncate(n)

    def close(self):
        if self.closed:
            return
        super().close()
        s = simmod._sim
        if s is not None and not s.killed and self._g not in self._d.dead:
            self._d.after("close", self._p, self._g)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = _disk
    if d is None or isinstance(file, int):
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not d.mine(file):
        if WRITING & set(mode):
            raise PermissionError(errno.EACCES, "outside the simulated disk", os.fsdecode(file))
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    d.point("open-" + "".join(sorted(set(mode) - set("bt"))), file)
    binary = "b" in mode
    raw = Raw(file, mode.replace("b", "").replace("t", ""), opener)
    d.after("open", file)
    if buffering == 0:
        return raw
    if "+" in mode:
        buf = io.BufferedRandom(raw)
    elif WRITING & set(mode):
        buf = io.BufferedWriter(raw)
    else:
        buf = io.BufferedReader(raw)
    if binary:
        return buf
    if encoding in (None, "locale"):
        encoding = d.locale
    t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def _wrap(name, label, nargs, mod=os):
    real = _real[name] = getattr(mod, name)

    def f(*a, **k):
        d = _disk
        if d is None:
            return real(*a, **k)
        paths = [x for x in list(a[:nargs]) + [k[n] for n in ("src", "dst", "path") if n in k]]
        for p in paths:
            if not isinstance(p, int) and not d.mine(p):
                raise PermissionError(errno.EACCES, "outside the simulated disk", os.fsdecode(p))
        d.point(label, paths[-1])
        r = real(*a, **k)
        d.after(label, paths[-1])
        return r
    f.__name__ = f.__qualname__ = name
    setattr(mod, name, f)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    d = _disk
    if d is not None:
        w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        if d.mine(path):
            d.point("open-fd", path)
        elif w:
            raise PermissionError(errno.EACCES, "outside the simulated disk", os.fsdecode(path))
    return _real["os.open"](path, flags, mode, dir_fd=dir_fd)


def _os_write(fd, b):
    d = _disk
    if d is not None and fd > 2:
        f = d.point("write", fd)
        if f == "dkfull":
            d.full = True
        if d.full:
            raise OSError(errno.ENOSPC, "simulated: no space left on device")
        if f in ("dktorn", "dktornkill", "dkshort"):
            n = _real["os.write"](fd, bytes(b)[:max(1, len(b) // 2)])
            if f == "dkshort":
                return n
            if f == "dktornkill":
                simmod._sim.killed = True
                raise simmod.Killed("killed in the middle of a write")
            raise OSError(errno.EIO, "simulated: torn write")
    return _real["os.write"](fd, b)


def _refuse(name):
    real = getattr(os, name, None)
    if real is None:
        return

    def f(*a, **k):
        if _disk is None:
            return real(*a, **k)
        raise PermissionError(errno.EPERM, "not available on the simulated disk: " + name)
    f.__name__ = f.__qualname__ = name
    setattr(os, name, f)


def install(disk):
    """inside a forked child only"""
    global _disk
    if not _real:
        _real["open"] = builtins.open
        _real["os.open"], _real["os.write"] = os.open, os.write
        builtins.open = io.open = sim_open
        os.open, os.write = _os_open, _os_write
        for n, lab, k in (("rename", "rename", 2), ("replace", "rename", 2), ("remove", "remove", 1), ("unlink", "remove", 1),
                          ("link", "link", 2), ("symlink", "link", 2), ("truncate", "write", 1), ("mkdir", "mkdir", 1),
                          ("rmdir", "remove", 1), ("fsync", "sync", 1), ("fdatasync", "sync", 1), ("utime", "meta", 1), ("chmod", "meta", 1)):
            _wrap(n, lab, k)
        for n in ("system", "popen", "posix_spawn", "posix_spawnp", "execv", "execve", "fork", "forkpty", "kill", "killpg", "chroot", "chown"):
            _refuse(n)
        if hasattr(shutil, "_USE_CP_SENDFILE"):
            shutil._USE_CP_SENDFILE = False
        if hasattr(shutil, "_use_fd_functions"):
            shutil._use_fd_functions = False
    _disk = disk


def uninstall():
    global _disk
    _disk = None
