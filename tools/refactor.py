#!/usr/bin/env python3
"""copies /repo to DEST and rewrites its modules without changing what they do (to look for false alarms)
usage: refactor.py VARIANT DEST
 noop     a statement that does nothing at the start of every function, a comment at the end of every file
 ret      every return value goes through a local name
 impl     every plain function or method delegates to an extracted helper with its body
 flip     every if/else is inverted
 args     the nested calls of assignments are taken out into locals
 loop     every for loop counts its turns, every while loop becomes while True with a break
 aug      augmented assignments of plain names to numbers are unchanged, tuples assignments are split
 local    module functions are looked up through a local alias
 all      noop+ret+flip+args+loop+impl"""
import ast, os, shutil, sys

FN = (ast.FunctionDef,)


def body_start(f):
    return 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and isinstance(f.body[0].value.value, str) else 0


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.body.insert(body_start(f), ast.parse("_nothing = None").body[0])
        return f


def has_yield(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f))


class Ret(ast.NodeTransformer):
    def visit_Return(self, r):
        if r.value is None or isinstance(r.value, (ast.Name, ast.Constant)):
            return r
        return [ast.Assign([ast.Name("_result", ast.Store())], r.value, lineno=r.lineno), ast.Return(ast.Name("_result", ast.Load()))]


class Flip(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class Args(ast.NodeTransformer):
    k = 0

    def visit_Assign(self, a):
        c = a.value
        if isinstance(c, ast.Call) and isinstance(c.func, (ast.Name, ast.Attribute)) and c.args and isinstance(c.args[0], (ast.Call, ast.BinOp)) and self.simple(c.func):
            Args.k += 1
            n = "_arg%d" % Args.k
            if n and not self.cls:
                out = [ast.Assign([ast.Name(n, ast.Store())], c.args[0], lineno=a.lineno), a]
                c.args[0] = ast.Name(n, ast.Load())
                return out
        return a

    cls = True

    def simple(self, f):
        return isinstance(f, ast.Name) or (isinstance(f.value, ast.Name))

    def visit_FunctionDef(self, f):
        old, self.cls = self.cls, False
        self.generic_visit(f)
        self.cls = old
        return f

    def visit_Lambda(self, f):
        return f


class Loop(ast.NodeTransformer):
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        Loop.k += 1
        n.target = ast.Tuple([ast.Name("_turn%d" % Loop.k, ast.Store()), n.target], ast.Store())
        n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        stop = ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])
        return ast.While(ast.Constant(True), [stop] + n.body, [])


class Tup(ast.NodeTransformer):
    """a, b = x, y with plain names -> two assignments through temporaries"""
    def visit_Assign(self, a):
        t = a.targets[0]
        if len(a.targets) == 1 and isinstance(t, ast.Tuple) and isinstance(a.value, ast.Tuple) and len(t.elts) == len(a.value.elts) \
                and not any(isinstance(x, ast.Starred) for x in t.elts + a.value.elts):
            out = [ast.Assign([ast.Name("_t%d" % i, ast.Store())], v, lineno=a.lineno) for i, v in enumerate(a.value.elts)]
            return out + [ast.Assign([x], ast.Name("_t%d" % i, ast.Load()), lineno=a.lineno) for i, x in enumerate(t.elts)]
        if len(a.targets) > 1:                # a = b = x
            out = [ast.Assign([ast.Name("_t0", ast.Store())], a.value, lineno=a.lineno)]
            return out + [ast.Assign([x], ast.Name("_t0", ast.Load()), lineno=a.lineno) for x in a.targets]
        return a

    def visit_ClassDef(self, c):
        c.body = [self.visit(x) if isinstance(x, FN) else x for x in c.body]
        return c

    def visit_Module(self, m):
        m.body = [self.visit(x) if isinstance(x, FN + (ast.ClassDef,)) else x for x in m.body]
        return m


class Impl:
    def extract(self, f, incls):
        a = f.args
        if f.decorator_list or a.vararg or a.kwarg or a.kwonlyargs or has_yield(f) or not f.body[body_start(f):] or f.name.startswith("__"):
            return [f]
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)):
            return [f]
        if any(isinstance(n, ast.Attribute) and n.attr.startswith("__") and not n.attr.endswith("__") for n in ast.walk(f)):
            return [f]
        names = [x.arg for x in a.posonlyargs + a.args]
        h = ast.FunctionDef(name="_do_" + f.name, args=ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]),
                            body=f.body[body_start(f):], decorator_list=[], type_params=[])
        if incls:
            call = ast.Call(ast.Attribute(ast.Name(names[0], ast.Load()), h.name, ast.Load()), [ast.Name(n, ast.Load()) for n in names[1:]], []) if names else None
            if call is None:
                return [f]
        else:
            call = ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(n, ast.Load()) for n in names], [])
        g = ast.FunctionDef(name=f.name, args=a, body=f.body[:body_start(f)] + [ast.Return(call)], decorator_list=[], returns=f.returns, type_params=[])
        return [h, g]

    def visit(self, m):
        out = []
        for x in m.body:
            if isinstance(x, FN):
                out += self.extract(x, False)
            elif isinstance(x, ast.ClassDef):
                known = {y.name for y in x.body if isinstance(y, FN)}
                b = []
                for y in x.body:
                    if isinstance(y, FN):
                        e = self.extract(y, True)
                        if len(e) == 2:
                            # a helper per class: subclasses must not override each other's
                            e[0].name = e[0].name + "_of_" + x.name
                            e[1].body[-1].value.func.attr = e[0].name
                        b += e
                    else:
                        b.append(y)
                x.body = b
                out.append(x)
            else:
                out.append(x)
        m.body = out
        return m


V = {"noop": [Noop], "ret": [Ret], "flip": [Flip], "args": [Args], "loop": [Loop], "tup": [Tup], "impl": [Impl],
     "all": [Tup, Args, Ret, Flip, Loop, Impl, Noop]}


def main(variant, dest):
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree("/repo", dest, symlinks=True)
    n = 0
    for root in ("aerokit", "notebooks", "scripts"):
        for d, _, fs in os.walk(os.path.join(dest, root)):
            for f in fs:
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                s = open(p, encoding="utf-8").read()
                t = ast.parse(s)
                for tr in V[variant]:
                    t = tr().visit(t)
                    ast.fix_missing_locations(t)
                    t = ast.parse(ast.unparse(t))
                open(p, "w", encoding="utf-8").write(ast.unparse(t) + "\n# end of file\n")
                n += 1
    print(variant, n, "files")


if __name__ == "__main__":
    main(*sys.argv[1:3])
