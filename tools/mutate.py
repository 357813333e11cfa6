#!/usr/bin/env python3
"""mutation study: small state-related changes made by rule in the library, kept when the repository's tests still pass, then given to the
checks of the part they touch.  Survivors are looked at by hand (many are equivalent, or change values only, which no property is about).
usage: mutate.py list | run OUT [FILE-SUBSTRING] [OPERATOR]        (scratch copies under $DST_TMP or /tmp)"""
import ast, os, subprocess, sys, shutil, json, random, time, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
PY = "/opt/venv/bin/python"
MAP = [("instance/nozzle", "C05 C04 C01 C16"), ("instance/riemann", "C07 C04 C01 C03"), ("instance/unsteady_inflow", "C07 C04 C01"),
       ("aero/model1D", "C06 C04 C16 C07"), ("aero/unsteady1D", "C06 C07 C04 C03"), ("stability", "C08 C09 C01 C03"), ("numspectral", "C10 C01"),
       ("common/_dev", "C10 C01"), ("_ode", "C14 C01"), ("IterativeSolve", "C13 C01"), ("Cycle_Turbofan", "C11 C01"), ("engine", "C12 C04 C01"),
       ("dicovar", "C15 C18"), ("extendvar", "C15"), ("remove_output", "C17"), ("plot", "C19 C04 C16"), ("defaultgas", "C16 C04"),
       ("ShockWave", "C04 C01 C13 C16 C03"), ("MassFlow", "C04 C01 C13 C16 C03"), ("aero/", "C04 C01 C16 C03 C13")]
GAS = ("gamma", "gam", "g", "r", "gam_cold", "gam_hot", "r_cold", "r_hot")


class Ops(ast.NodeVisitor):
    """(operator, node, new text) for one file"""

    def __init__(self, src):
        self.src, self.out, self.fun = src, [], []
        self.visit(ast.parse(src))

    def seg(self, n):
        return ast.get_source_segment(self.src, n)

    def add(self, op, node, text):
        if text != self.seg(node):
            self.out.append((op, node, text))

    def visit_FunctionDef(self, n):
        self.fun.append(n.name)
        a = n.args
        for d in a.defaults + [x for x in a.kw_defaults if x]:
            if self.seg(d) in ("defg._gamma", "defg._r"):
                self.add("literal", d, "1.4" if "gamma" in self.seg(d) else "287.1")
        self.body(n.body)
        self.generic_visit(n)
        self.fun.pop()

    def body(self, b):
        for x, y in zip(b, b[1:]):
            ok = (ast.Assign, ast.AugAssign, ast.Expr)
            if isinstance(x, ok) and isinstance(y, ok) and x.lineno != y.lineno and x.col_offset == y.col_offset:
                t = [z for s in (x, y) for z in (s.targets if isinstance(s, ast.Assign) else [])]
                if any(isinstance(z, (ast.Attribute, ast.Subscript, ast.Tuple)) for z in t) and not isinstance(getattr(x, "value", None), ast.Constant):
                    self.out.append(("swap", (x, y), None))
        for x in b:
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and isinstance(x.value, ast.Constant) and len(b) > 1 and \
                    self.fun and self.fun[-1] != "__init__":
                self.add("noreset", x, "pass")
            for f in ("body", "orelse", "finalbody"):
                if getattr(x, f, None) and not isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    self.body(getattr(x, f))

    def visit_Call(self, n):
        f = self.seg(n.func)
        args = [self.seg(a) for a in n.args]
        kws = [(k.arg, self.seg(k.value)) for k in n.keywords]

        def text(f, args, kws):
            return "%s(%s)" % (f, ", ".join(args + ["%s=%s" % k if k[0] else "**" + k[1] for k in kws]))
        for i, k in enumerate(kws):
            if k[0] in GAS:
                self.add("dropgas", n, text(f, args, kws[:i] + kws[i + 1:]))
        if args and args[-1].split(".")[-1].strip("_") in GAS and not kws:
            self.add("dropgas", n, text(f, args[:-1], []))
        if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not args:
            self.add("nocopy", n, self.seg(n.func.value))
        if f.split(".")[-1] in ("deepcopy", "copy", "array", "asarray", "list", "dict", "copysign") and len(args) == 1 and not kws:
            self.add("nocopy", n, args[0])
        if f in ("np.zeros", "np.ones", "np.empty", "np.zeros_like", "np.ones_like", "np.eye", "np.full"):
            self.add("scratch", n, "_scratch(%r, %s)" % (self.fun[-1:], self.seg(n)))
        self.generic_visit(n)

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.value, ast.BinOp):
            t, l, op = self.seg(n.targets[0]), self.seg(n.value.left), {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}.get(type(n.value.op))
            if op and t == l:
                self.add("inplace", n, "%s %s= %s" % (t, op, self.seg(n.value.right)))
        self.generic_visit(n)

    def visit_If(self, n):
        c = self.seg(n.test)
        if "None" in c or "hasattr" in c or "isinstance" in c or "not in" in c or "shape" in c or "size" in c:
            self.add("iftrue", n.test, "True")
            self.add("iffalse", n.test, "False")
        self.generic_visit(n)

    def visit_Try(self, n):
        self.out.append(("notry", n, None))
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and isinstance(n.value, (ast.BinOp, ast.Call)) and self.fun:
            self.out.append(("memo", n, None))
        self.generic_visit(n)


HELP = '''
_scratch_d = {}


def _scratch(k, a):
    b = _scratch_d.setdefault((str(k), a.shape), a)
    b[...] = a
    return b
'''


def apply(src, op, node, text):
    lines = src.splitlines(keepends=True)
    if op == "swap":
        x, y = node
        a, b = lines[x.lineno - 1:x.end_lineno], lines[y.lineno - 1:y.end_lineno]
        mid = lines[x.end_lineno:y.lineno - 1]
        if not b[-1].endswith("\n"):
            b[-1] += "\n"
        return "".join(lines[:x.lineno - 1] + b + mid + a + lines[y.end_lineno:])
    if op == "notry":
        body = lines[node.body[0].lineno - 1:node.body[-1].end_lineno]
        d = node.body[0].col_offset - node.col_offset
        fin = lines[node.finalbody[0].lineno - 1:node.finalbody[-1].end_lineno] if node.finalbody else []
        body = [l[d:] if l[:d].strip() == "" else l for l in body + fin]
        return "".join(lines[:node.lineno - 1] + body + lines[node.end_lineno:])
    off = lambda ln, col: sum(len(l) for l in lines[:ln - 1]) + len(lines[ln - 1].encode()[:col].decode())
    i, j = off(node.lineno, node.col_offset), off(node.end_lineno, node.end_col_offset)
    if op == "memo":
        # keep the last result under a key which forgets the gas
        ind = " " * node.col_offset
        e = src[off(node.value.lineno, node.value.col_offset):off(node.value.end_lineno, node.value.end_col_offset)]
        text = ("_k = (%d, repr([v for n, v in sorted(locals().items()) if n not in ('gamma', '_k') and not callable(v)]))\n%sif _k not in _memo_d:\n%s    _memo_d[_k] = (%s)\n%sreturn _memo_d[_k]"
                % (node.lineno, ind, ind, e, ind))
    out = src[:i] + text + src[j:]
    if op in ("scratch", "memo"):
        t = ast.parse(out)
        k = next((n.lineno for n in t.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))), 1)
        n0 = next((n for n in t.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))), None)
        if n0 is not None and n0.decorator_list:
            k = n0.decorator_list[0].lineno
        ls = out.splitlines(keepends=True)
        out = "".join(ls[:k - 1]) + (HELP if op == "scratch" else "\n_memo_d = {}\n") + "\n\n" + "".join(ls[k - 1:])
    return out


def mutants(sub="", oper=""):
    fs = [f for f in subprocess.run(["git", "ls-files", "aerokit", "notebooks/remove_output.py"], cwd=REPO, capture_output=True, text=True).stdout.split() if f.endswith(".py")]
    for f in fs:
        if sub and sub not in f or f.endswith("__init__.py"):
            continue
        src = open(os.path.join(REPO, f), encoding="utf-8").read()
        for k, (op, node, text) in enumerate(Ops(src).out):
            if oper and op not in oper.split(','):
                continue
            try:
                new = apply(src, op, node, text)
                ast.parse(new)
            except SyntaxError:
                continue
            n = node[0] if isinstance(node, tuple) else node
            yield {"id": "%s:%d:%s:%d" % (f, n.lineno, op, k), "file": f, "new": new, "op": op}


def one(m, out):
    tmp = os.path.join(os.environ.get("DST_TMP", "/tmp"), "mut.%d.%d" % (os.getpid(), abs(hash(m["id"])) % 10 ** 9))
    try:
        shutil.copytree(REPO, tmp, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        open(os.path.join(tmp, m["file"]), "w", encoding="utf-8").write(m["new"])
        env = dict(os.environ, PYTHONPATH=tmp, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", DST_REPO=tmp)
        try:
            t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=tmp, env=env, capture_output=True, text=True, timeout=120)
            if t.returncode:
                return
        except subprocess.TimeoutExpired:
            return
        res = "SURVIVED"
        ps = next(v for k, v in MAP if k in m["file"]).split()
        ps = sorted(ps, key=lambda p: not (m["op"] == "literal" and p == "C16" or m["op"] == "memo" and p == "C01"))
        for p in ps:
            try:
                c = subprocess.run([PY, os.path.join(V, "dst", "check.py"), p, "--workers", "2"] + (["--runs", os.environ["RUNS"]] if "RUNS" in os.environ else []),
                                   cwd=V, env=dict(env, VERIF_SEED="1"), capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                res = "TIMEOUT " + p
                break
            if c.returncode == 1:
                res = "caught " + p
                break
            if c.returncode:
                res = "NOANSWER %s %s" % (p, (c.stdout + c.stderr)[-200:].replace("\n", "/"))
                break
        old = open(os.path.join(REPO, m["file"]), encoding="utf-8").read()
        import difflib
        d = [l for l in difflib.unified_diff(old.splitlines(), m["new"].splitlines(), lineterm="", n=0) if l[:1] in "+-" and l[:3] not in ("+++", "---")]
        with open(out, "a") as fo:
            fo.write("%s  %s  %s\n" % (res, m["id"], "" if res.startswith("caught") else " | ".join(x.strip() for x in d)[:300]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        import collections
        c = collections.Counter((m["file"], m["op"]) for m in mutants(*sys.argv[2:]))
        for k, n in sorted(c.items()):
            print(n, *k)
        print(sum(c.values()))
    else:
        out = sys.argv[2]
        ms = list(mutants(*sys.argv[3:]))
        random.Random(1).shuffle(ms)
        done = open(out).read() if os.path.exists(out) else ""
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
            list(ex.map(lambda m: one(m, out), [m for m in ms if m["id"] not in done]))
