"""Behaviour-preserving rewrites of the whole package, to look for false alarms.
   python3 tools/refactor_auto.py OUT_DIR [pass ...]      writes a rewritten copy of /repo to OUT_DIR"""
import ast
import os
import shutil
import sys


class Ret(ast.NodeTransformer):
    """return e  ->  out_ = e; return out_"""

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None or isinstance(n.value, ast.Name):
            return n
        return [ast.Assign([ast.Name('out_', ast.Store())], n.value), ast.Return(ast.Name('out_', ast.Load()))]


class Rename(ast.NodeTransformer):
    """Rename local variables (not parameters, not free or declared nonlocal, not shared with inner functions)."""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        params = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        stores, inner = set(), set()
        for x in self.own(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                stores.add(x.id)
        for x in ast.walk(n):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not n:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name):
                        inner.add(y.id)
                    if isinstance(y, ast.arg):
                        inner.add(y.arg)
        m = {s: s + '_r' for s in stores - params - inner}
        for x in self.own(n):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
        return n

    def own(self, f):
        stack = list(f.body)
        while stack:
            x = stack.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))


class Comm(ast.NodeTransformer):
    """a + b -> b + a, a * b -> b * a for numeric-looking operands; x ** 2 -> x * x; a - b -> a + (-b)"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr, ast.ListComp, ast.Starred)) or
               (isinstance(x, ast.Constant) and isinstance(x.value, str)) for x in (n.left, n.right)):
            return n
        if isinstance(n.op, (ast.Add, ast.Mult)):
            return ast.BinOp(n.right, n.op, n.left)
        if isinstance(n.op, ast.Sub):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and \
                isinstance(n.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), n.left)
        return n


class Flip(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A, also for conditional expressions"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Lam(ast.NodeTransformer):
    """a lambda that is an argument becomes a named inner function bound just before the statement"""

    def __init__(self):
        self.k = 0

    def visit_FunctionDef(self, n):
        n.body = self.block(n.body)
        return n

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                s.body = self.block(s.body)
            elif isinstance(s, (ast.If, ast.For, ast.While, ast.With)):
                s.body = self.block(s.body)
                if getattr(s, 'orelse', None):
                    s.orelse = self.block(s.orelse)
            elif isinstance(s, (ast.Assign, ast.Return, ast.Expr)):
                defs = []
                me = self

                class In(ast.NodeTransformer):
                    def visit_Lambda(self, l):
                        me.k += 1
                        nm = f'fn_{me.k}_'
                        defs.append(ast.FunctionDef(nm, l.args, [ast.Return(l.body)], [], None, type_params=[]))
                        return ast.Name(nm, ast.Load())

                    def visit_ListComp(self, x):
                        return x
                s = In().visit(s)
                out.extend(defs)
            out.append(s)
        return out

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        return n


class Temp(ast.NodeTransformer):
    """Call arguments that are themselves calls or arithmetic are bound to temporaries first (straight-line order)."""

    def __init__(self):
        self.k = 0

    def visit_FunctionDef(self, n):
        n.body = self.block(n.body)
        return n

    visit_ClassDef = lambda self, n: (self.generic_visit(n), n)[1]

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                s.body = self.block(s.body)
            elif isinstance(s, (ast.If, ast.For, ast.While, ast.With)):
                s.body = self.block(s.body)
                if getattr(s, 'orelse', None):
                    s.orelse = self.block(s.orelse)
            elif isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.Call):
                c = s.value
                pre = []
                ok = not any(isinstance(a, ast.Starred) for a in c.args)
                if ok:
                    for i, a in enumerate(c.args):
                        if isinstance(a, (ast.Call, ast.BinOp)):
                            self.k += 1
                            nm = f'tmp_{self.k}_'
                            pre.append(ast.Assign([ast.Name(nm, ast.Store())], a))
                            c.args[i] = ast.Name(nm, ast.Load())
                out.extend(pre)
            out.append(s)
        return out


class Out(ast.NodeTransformer):
    """Inner expressions of a return are moved to a module-level helper taking its free local names as arguments."""

    def __init__(self):
        self.k = 0
        self.helpers = []
        self.glob = set()

    def visit_Module(self, m):
        import builtins
        self.glob = set(dir(builtins))
        for s in m.body:
            for x in ast.walk(s):
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    for a in s.names:
                        self.glob.add((a.asname or a.name).split('.')[0])
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.glob.add(s.name)
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.glob.add(t.id)
        self.generic_visit(m)
        m.body.extend(self.helpers)
        return m

    def visit_Return(self, n):
        v = n.value
        if v is None or isinstance(v, (ast.Name, ast.Constant)) or getattr(self, 'depth', 0) > 8:
            return n
        for x in ast.walk(v):
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Yield, ast.NamedExpr, ast.DictComp)):
                return n
            if isinstance(x, ast.Name) and x.id in ('super', '__class__'):
                return n
        names = []
        for x in ast.walk(v):
            if isinstance(x, ast.Name) and x.id not in names:
                if x.id in self.glob and x.id not in self.locals:
                    continue
                names.append(x.id)
        self.k += 1
        nm = f'_helper_{self.k}'
        self.helpers.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in names], None, [], [], None, []),
                                            [ast.Return(v)], [], None, type_params=[]))
        return ast.Return(ast.Call(ast.Name(nm, ast.Load()), [ast.Name(a, ast.Load()) for a in names], []))

    locals = frozenset()

    def visit_FunctionDef(self, n):
        old = self.locals
        self.locals = self.locals | {a.arg for a in ast.walk(n) if isinstance(a, ast.arg)} | \
            {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
            {x.name for x in ast.walk(n) if isinstance(x, ast.FunctionDef) and x is not n}
        self.generic_visit(n)
        self.locals = old
        return n


class Swap(ast.NodeTransformer):
    """Swap adjacent independent plain assignments."""

    def names(self, n, ctx):
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}

    def swap(self, body):
        i = 0
        while i + 1 < len(body):
            a, b = body[i], body[i + 1]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and \
                    all(isinstance(t, (ast.Name, ast.Tuple)) for t in a.targets + b.targets):
                sa, sb = self.names(a, ast.Store), self.names(b, ast.Store)
                la, lb = self.names(a, ast.Load), self.names(b, ast.Load)
                if not (sa & sb or sa & lb or sb & la):
                    body[i], body[i + 1] = b, a
                    i += 2
                    continue
            i += 1
        return body

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.swap(n.body)
        return n


class Tuple_(ast.NodeTransformer):
    """a, b = x, y  <->  separate statements via a temporary; f(x, y) keyword arguments for local calls are left alone"""

    def block(self, body):
        out = []
        for s in body:
            for f in ('body', 'orelse'):
                if isinstance(getattr(s, f, None), list):
                    setattr(s, f, self.block(getattr(s, f)))
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and \
                    isinstance(s.value, ast.Call) and all(isinstance(t, ast.Name) for t in s.targets[0].elts):
                nm = 'pair_'
                out.append(ast.Assign([ast.Name(nm, ast.Store())], s.value))
                for i, t in enumerate(s.targets[0].elts):
                    out.append(ast.Assign([t], ast.Subscript(ast.Name(nm, ast.Load()), ast.Constant(i), ast.Load())))
                continue
            out.append(s)
        return out

    def visit_Module(self, m):
        m.body = self.block(m.body)
        return m


class Alias(ast.NodeTransformer):
    """jnp.x -> jax.numpy.x"""

    def visit_Name(self, n):
        if n.id == 'jnp' and isinstance(n.ctx, ast.Load):
            return ast.Attribute(ast.Name('jax', ast.Load()), 'numpy', ast.Load())
        return n


PASSES = dict(ret=Ret, rename=Rename, comm=Comm, flip=Flip, lam=Lam, temp=Temp, out=Out, swap=Swap, tup=Tuple_, alias=Alias)


def main():
    out, names = sys.argv[1], sys.argv[2:] or list(PASSES)
    if os.path.exists(out):
        shutil.rmtree(out)
    shutil.copytree('/repo', out, ignore=shutil.ignore_patterns('.git', '*.gif'))
    roots = ['fbs']
    for r in roots:
        for d, _, fs in os.walk(os.path.join(out, r)):
            for f in fs:
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    t = ast.parse(open(p).read())
                    for nm in names:
                        if nm == 'alias' and not any(isinstance(s, ast.Import) and any(a.name == 'jax' for a in s.names)
                                                     for s in t.body):
                            continue
                        t = PASSES[nm]().visit(t)
                        ast.fix_missing_locations(t)
                    open(p, 'w').write(ast.unparse(t))


main()
