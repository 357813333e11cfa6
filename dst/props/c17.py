"""C17 cleaning a notebook never loses it"""
import io as _io
from engine import *
import disk as dk

NAMES = ["a.ipynb", "b.ipynb", "my notes.ipynb", "sub/a.ipynb", "sub/deep.er/b.ipynb", "plain", "v1.2.ipynb", "a.ipynb.ipynb"]
KINDS = ["small", "big", "v3", "empty", "accent", "noout", "blank", "raw", "rich", "v3b", "notjson", "notnb", "void"]
UNREADABLE = ("notjson", "notnb", "void")


def content(kind, ver):
    if kind == "notjson":
        return b'{"cells": [  version %d' % ver
    if kind == "notnb":
        return b'{"a": %d}' % ver
    if kind == "void":
        return b""
    md = {"cell_type": "markdown", "id": "m%d" % ver, "metadata": {}, "source": ["# version %d\n" % ver, "text" if kind != "accent" else "caf\u00e9 \u03b3=1.4 \u2192"]}
    n = {"big": 24, "empty": 0}.get(kind, 3)
    cells = [md]
    for i in range(n):
        src = "x = %d\n" % i + ("y = '%s'\n" % ("abcdefg " * 80) if kind == "big" else "")
        out = [] if kind == "noout" else [{"output_type": "stream", "name": "stdout", "text": ["result %d of version %d\n" % (i, ver)] * (8 if kind == "big" else 1)}]
        cells.append({"cell_type": "code", "id": "c%d-%d" % (ver, i), "metadata": {}, "source": [src], "execution_count": None if kind == "noout" else i + 1, "outputs": out})
    if kind == "empty":
        cells = []
    if kind == "blank":                        # cells left blank, twice the same cell
        cells += [dict(cells[1], id="b%d-%d" % (ver, i), source=s) for i, s in enumerate([[], ["\n"], cells[1]["source"]])] + [dict(md, id="mm", source=[])]
    if kind == "raw":                          # text kept away from the kernel, and cells of any type left empty
        cells += [{"cell_type": "raw", "id": "r%d" % i, "metadata": {}, "source": s} for i, s in enumerate([[], ["raw %d" % ver], ["\n", "  x\n"]])]
        cells += [dict(cells[1], id="e", source=[]), dict(md, id="me", source=[]), dict(cells[1], id="e2", source=[])]
        cells[1:1] = [{"cell_type": "raw", "id": "r9", "metadata": {}, "source": []}]
    if kind == "rich":                         # every kind of output, headings, magics
        outs = [{"output_type": "error", "ename": "E", "evalue": "v%d" % ver, "traceback": ["t"]},
                {"output_type": "display_data", "data": {"image/png": "AAAA", "text/plain": ["<Figure>"]}, "metadata": {}},
                {"output_type": "execute_result", "execution_count": 3, "data": {"text/plain": ["%d" % ver]}, "metadata": {}}]
        cells = [dict(md, source=["# Title %d" % ver]), dict(md, id="m2", source=["## Sub\n", "body"]), dict(md, id="m3", source=["####### deep"])]
        cells += [{"cell_type": "code", "id": "o%d" % i, "metadata": {"collapsed": True}, "source": ["%matplotlib inline\n", "!ls\n", "x%d" % i], "execution_count": i, "outputs": outs[:i]} for i in range(4)]
    if kind == "v3b":
        ws = [{"cell_type": "heading", "level": 1, "source": "", "metadata": {}}, {"cell_type": "raw", "source": "", "metadata": {}},
              {"cell_type": "markdown", "source": "v%d" % ver, "metadata": {}},
              {"cell_type": "code", "collapsed": False, "input": "", "language": "python", "metadata": {}, "prompt_number": 4,
               "outputs": [{"output_type": "pyout", "prompt_number": 4, "text": "1", "metadata": {}}]}]
        d = {"metadata": {"name": "y"}, "nbformat": 3, "nbformat_minor": 0, "worksheets": [{"cells": ws, "metadata": {}}]}
    elif kind == "v3":
        ws = [{"cell_type": "heading", "level": 2, "source": "version %d" % ver, "metadata": {}},
              {"cell_type": "code", "collapsed": False, "input": "a=1", "language": "python", "metadata": {}, "prompt_number": 2,
               "outputs": [{"output_type": "stream", "stream": "stdout", "text": "x"}]}]
        d = {"metadata": {"name": "x"}, "nbformat": 3, "nbformat_minor": 0, "worksheets": [{"cells": ws, "metadata": {}}, {"cells": ws[1:], "metadata": {}}]}
    else:
        d = {"cells": cells, "metadata": {"kernelspec": {"name": "python3", "display_name": "Python 3", "language": "python"}}, "nbformat": 4, "nbformat_minor": 5}
    return json.dumps(d, ensure_ascii=False, indent=1).encode("utf-8")


def cells_of(data):
    """[(type, source, has outputs)] of a complete notebook, or None"""
    if data is None:
        return None
    if data not in _cells:
        _cells[data] = parse_cells(data)
    return _cells[data]


_cells = {}


def parse_cells(data):
    import nbformat
    try:
        nb = nbformat.reads(data.decode("utf-8"), as_version=4)
        return [(c["cell_type"], c["source"].rstrip("\n"), bool(c.get("outputs")) or c.get("execution_count") is not None) for c in nb["cells"]]
    except Exception:
        return None


_code = {}


def script():
    p = simmod.EXTRA
    if p not in _code:
        with open(p, encoding="utf-8") as f:
            _code[p] = compile(f.read(), p, "exec")
    return _code[p], p


class W(World):
    def setup(self, cfg):
        import uuid, random
        rnd = random.Random(7)
        uuid.uuid4 = lambda: uuid.UUID(int=rnd.getrandbits(128), version=4)
        script()
        self.disk = dk.Disk(cfg.get("locale", "utf-8"))
        self.cwd0 = os.getcwd()
        os.chdir(self.disk.root)
        dk.install(self.disk)
        self.orig = {}            # notebook -> (bytes, cells) last put there by its user
        self.gone = {}
        for d in ("sub", "sub/deep.er"):
            os.makedirs(os.path.join(self.disk.root, d), exist_ok=True)
        for n, kind, ver in cfg["nb"]:
            self.put(n, content(kind, ver))

    def put(self, n, data):
        self.disk.put(n, data)
        self.orig[n] = (data, cells_of(data))

    def kept(self, n):
        """is the notebook, or its complete cleaned form, still there?"""
        data, cells = self.orig[n]
        for f in (n, n + ".bak"):
            x = self.disk.read(f)
            if x is None:
                continue
            if x == data:
                return f, "original"
            c = cells_of(x)
            if cells is not None and c is not None and [y[:2] for y in c] == [y[:2] for y in cells]:
                return f, "cleaned" if not any(y[2] for y in c) else "same cells"
        return None

    def do(self, task, op):
        if op[0] == "edit":
            sim = self.sim
            sim.active = False
            self.put(op[1], content(op[2], op[3]))
            return None
        if op[0] == "rmbak":
            self.sim.active = False
            # the user tidies up: only backups of notebooks that are whole
            for n in self.orig:
                if self.disk.read(n) == self.orig[n][0]:
                    for f in (n + ".bak",):
                        if self.disk.read(f) is not None:
                            dk._real["remove"](os.path.join(self.disk.root, f))
            return None
        names = op[1]
        before = {n: self.disk.read(n) for n in names}
        code, path = script()
        g = {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__}
        argv = sys.argv
        how = op[2] if len(op) > 2 else ""
        sys.argv = [path] + [{"abs": os.path.join(self.disk.root, n), "dot": "./" + n}.get(how, n) for n in names]
        self.disk.begin()
        err = None
        try:
            exec(code, g)
        except SystemExit as e:
            err = e if e.code not in (None, 0) else None
        except BaseException as e:
            err = e
        finally:
            self.sim.active = False
            sys.argv = argv
            self.disk.end()
        if isinstance(err, simmod.StepBudget):
            raise err
        if err is not None:
            err.__traceback__ = None
        if err is not None:
            self.probe("killed" if isinstance(err, simmod.Killed) else "failed")
        for n in self.orig:
            k = self.kept(n)
            if k is None:
                self.note("lost", "after %s, neither %s nor its backup holds the notebook or its complete cleaned form (on disk: %s)" %
                          ("a run that ended with %s(%s)" % (type(err).__name__, str(err)[:60]) if err is not None else "a successful run", n,
                           ["%s: %d bytes" % (f, len(self.disk.read(f) or b"")) for f in self.disk.listing()]))
                self.orig[n] = (b"lost", None)
                self.gone[n] = True
            else:
                self.probe("kept as " + k[1])
        if err is None:
            for i, n in enumerate(names):
                if before[n] is None or n in self.gone:
                    self.note("silent", "the script succeeded although %s did not exist" % n) if before[n] is None else None
                    continue
                want = cells_of(before[n])
                got = cells_of(self.disk.read(n))
                if want is None:
                    continue
                if got is None or [c[:2] for c in got] != [c[:2] for c in want] or any(c[2] for c in got):
                    self.note("uncleaned", "the script succeeded but %s holds %s instead of the %d cells without outputs" %
                              (n, "no notebook" if got is None else "%d cells, outputs: %s" % (len(got), any(c[2] for c in got)), len(want)))
                bak = self.disk.read(n + ".bak")
                if names.count(n) == 1 and bak != before[n]:
                    self.note("backup", "the script succeeded but the backup of %s is not the notebook it was given" % n)
        if err is not None:
            raise err if not isinstance(err, simmod.Killed) else RuntimeError("killed")
        return None

    def final(self):
        out = [(f, len(self.disk.read(f) or b"")) for f in self.disk.listing() if f in self.orig or f[:-4] in self.orig]
        dk.uninstall()
        os.chdir(self.cwd0)
        self.disk.close()
        return out


class C17(Prop):
    id = "C17"
    preload = ("nbformat", "nbformat.current")
    World = W
    runs = {"quick": 1125, "thorough": 42000}
    variants = 3
    modes = (("fault", 1),)
    fault_kinds = ("kill", "kill", "dkeio", "dkfull", "dktorn", "dktornkill", "dkshort", "dkperm", "kint", "mem", "epipe", "enospc")
    max_faults = 3
    snapshot_globals = False
    budget = 200000
    real = "notebooks/remove_output.py, nbformat, Python's buffered and text file layers"
    stub = "raw file operations (scratch directory behind a fault-injecting layer), process kill, stdout, the user editing notebooks between runs"

    def gen(self, rng):
        names = rng.sample(NAMES, rng.choice([1, 1, 2, 3]))
        nb = [[n, rng.choice(KINDS) if rng.random() < .5 else rng.choice(["small", "big", "accent"]), i] for i, n in enumerate(names)]
        ops, ver = [], 10
        for j in range(rng.randint(1, 5)):
            r = rng.random()
            if j and r < .2:
                ver += 1
                ops.append(["edit", rng.choice(names), rng.choice(KINDS), ver])
            elif j and r < .25:
                ops.append(["rmbak"])
            else:
                k = rng.randint(1, len(names))
                a = rng.sample(names, k)
                if rng.random() < .05:
                    a.append(rng.choice(names))
                if rng.random() < .05:
                    a.insert(rng.randrange(len(a) + 1), "missing.ipynb")
                ops.append(["run", a] + rng.choice([[], [], [], ["abs"], ["dot"]]))
        return {"setup": {"nb": nb, "locale": rng.choice(["utf-8", "utf-8", "utf-8", "cp1252", "ascii"])},
                "tasks": [[{"id": "t0.%d" % j, "op": o} for j, o in enumerate(ops)]]}

    def judge(self, scen, rec, ctx):
        v = []
        fired = {f[0] for f in rec["fired"]}
        nb = {n: k for n, k, _ in scen["setup"]["nb"]}
        first = scen["tasks"][0][0]
        r = rec["out"].get(first["id"])
        if r and r[0] == "exc" and not fired and first["op"][0] == "run" and len(set(first["op"][1])) == len(first["op"][1]) and \
                all(n in nb and nb[n] not in UNREADABLE for n in first["op"][1]):
            v.append(("refused", "cleaning %s %s" % (first["op"][1], outcome_str(r))))
        return v


PROP = C17()
