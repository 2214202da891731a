"""Abstract interpreter: Python source (AST) -> value graph.  Nothing of the analysed program is imported or executed."""
import ast
import os
from fractions import Fraction as Fr
from .terms import *
from . import terms as tm
from .arr import *
from . import arr as ar
from .loops import Orbit, Comp, fresh_cvar, is_ph, subst_cv
from . import loops

REPO = os.environ.get('FBSA_REPO', '/repo')


# ----------------------------------------------------------------------------------------------------------------------
# Python-level abstract values
# ----------------------------------------------------------------------------------------------------------------------
class Ext:
    """An external (library) name, resolved to its dotted path."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f'Ext({self.path})'


class Func:
    def __init__(self, node, scope, module, name, defaults, kwdefaults, qual):
        self.node, self.scope, self.module, self.name = node, scope, module, name
        self.defaults, self.kwdefaults, self.qual = defaults, kwdefaults, qual
        self.attrs = {}

    def __repr__(self):
        return f'<fn {self.qual}>'


class Native:
    """A function modelled in the analyser."""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f'<native {self.name}>'


class Opaque:
    """A user-supplied callable about which nothing is known but its result layout."""

    def __init__(self, name, result, pure=True, nameargs=None):
        self.name, self.result = name, result
        self.nameargs = nameargs


class Partial:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class Bound:
    def __init__(self, f, obj):
        self.f, self.obj = f, obj


class Class:
    def __init__(self, name, bases, attrs, module, qual):
        self.name, self.bases, self.attrs, self.module, self.qual = name, bases, attrs, module, qual
        self.fields = []

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Class):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif isinstance(b, Ext):
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, Class) and name in c.attrs:
                return c.attrs[name]
        return None

    def has_ext_base(self, suffix):
        return any(isinstance(c, Ext) and c.path.split('.')[-1] in suffix for c in self.mro())

    def __repr__(self):
        return f'<class {self.qual}>'


class Instance:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def _vmapv(self, f):
        return Instance(self.cls, {k: vmapv(v, f) for k, v in self.attrs.items()})

    def __repr__(self):
        return f'<{self.cls.name} object>'


class NT(tuple):
    """Instance of a NamedTuple class."""

    def __new__(cls, k, vals):
        t = tuple.__new__(cls, vals)
        t.k = k
        return t


class Module:
    def __init__(self, name, env):
        self.name, self.env = name, env


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        if self.step is ONE:
            return sub(self.stop, self.start)
        if ival(self.step) == -1:
            return sub(self.start, self.stop)
        return floordiv(sub(add(sub(self.stop, self.start), self.step), ONE), self.step)

    def seq(self):
        n = self.length()
        v = fresh(n)
        return SymSeq(n, v, scalar(add(self.start, mul(self.step, v))), 'range')


class SymStr:
    def __init__(self, parts):
        self.parts = parts


class Effect:
    """A file written: under these conditions, for every value of the loop counters (variable, extent)."""

    def __init__(self, path, vals, loc, conds):
        self.path, self.vals, self.loc, self.conds, self.loops = path, vals, loc, list(conds), []

    def map(self, f):
        m = lambda x: f(x) if isinstance(x, T) else tuple(map(m, x)) if isinstance(x, tuple) else x
        if isinstance(self.path, SymStr):
            self.path = SymStr([m(x) for x in self.path.parts])
        self.vals = {k: vmapv(lift(v), f) for k, v in self.vals.items()}
        self.conds = [f(c) for c in self.conds]


def assigned_first(body, name):
    """Every run of the statements assigns the name before reading it (or leaves before either)."""
    for s in body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is not None and reads(s.value, name):
                return False
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if name in {n for t in ts for n in target_names(t)}:
                return s.value is not None
            if any(reads(t, name) for t in ts):
                return False
        elif isinstance(s, ast.If):
            if reads(s.test, name):
                return False
            a, b = assigned_first(s.body, name), assigned_first(s.orelse, name)
            if a and b:
                return True
            if any(reads(x, name) for x in s.body + s.orelse):
                return False
        elif reads(s, name):
            return False
    return False


def reads(node, name):
    return any(isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Store) for x in ast.walk(node))


class AtProxy:
    def __init__(self, x, idx=None):
        self.x, self.idx = x, idx


class Undef:
    """A value that exists on one joined path only."""

    def __init__(self, why):
        self.why = why


class KW:
    """key under which an opaque **kwargs pack is carried"""


KWSTAR = '**'


class PathEnd(Exception):
    """this path raises / is rejected by the program"""

    def __init__(self, what, loc):
        super().__init__(what)
        self.loc = loc


class Ret:
    def __init__(self, v):
        self.v = v


class PartialRet:
    def __init__(self, cond, v):
        self.cond, self.v = cond, v


BREAK, CONT = object(), object()


class Scope:
    def __init__(self, parent=None, vars=None, glob=None):
        self.vars = {} if vars is None else vars
        self.parent = parent
        self.glob = glob
        self.globals_decl = set()
        self.nonlocal_decl = set()

    def get(self, n):
        s = self
        while s is not None:
            if n in s.vars:
                return s.vars[n]
            s = s.parent
        raise KeyError(n)

    def set(self, n, v):
        if n in self.globals_decl:
            s = self
            while s.parent is not None:
                s = s.parent
            s.vars[n] = v
        elif n in self.nonlocal_decl:
            s = self.parent
            while s is not None and n not in s.vars:
                s = s.parent
            s.vars[n] = v
        else:
            self.vars[n] = v


def is_num(x):
    return isinstance(x, (int, Fr, float)) and not isinstance(x, bool) or isinstance(x, bool)


def float_lit(x):
    if x == float('inf') or x != x:
        return x
    return Fr(repr(x))


class Interp:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.sources = {}
        self.overrides = {}  # qualified name -> python callable(interp, args, kwargs)
        self.depth = 0
        self.stats = {'functions': set(), 'calls': 0, 'sites': set(), 'files': set()}
        self.strict_ext = True
        self.loc = None
        self.trace_depth = 0
        self.ext_values = {}
        self.effects, self.conds = [], []
        self.unknown_ext = None  # callable(path, args, kwargs) for permissive script analysis
        from . import lib
        self.lib = lib.LIB
        self.assume_true = []

    # -- modules -------------------------------------------------------------------------------------------------------
    def find_module(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.find_module(name)
        if path is None:
            raise Unmodelled(f'module {name} not found')
        if '.' in name and self.find_module(name.rsplit('.', 1)[0]):
            self.load(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        with open(path, encoding='utf-8') as f:
            src = f.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise Definite(f'syntax error in {path}: {e}')
        scope = Scope()
        mod = Module(name, scope)
        self.modules[name] = mod
        self.stats['files'].add(os.path.relpath(path, self.repo))
        scope.vars['__name__'] = name
        scope.vars['__file__'] = path
        mod.path = path
        mod.ispkg = path.endswith('__init__.py')
        if '.' in name:
            par = name.rsplit('.', 1)[0]
            if par in self.modules:
                pm = self.modules[par]
                pm.env.vars.setdefault(name.rsplit('.', 1)[1], mod)
        fr = self.frame(mod)
        self.exec_module(tree.body, scope, fr)
        return mod

    def exec_module(self, body, scope, fr):
        """Module level: a statement without transfer function leaves its targets unknown."""
        for st in body:
            try:
                self.exec(st, scope, fr)
            except Unmodelled as e:
                for n in assigned_names([st]):
                    scope.vars[n] = Undef(str(e))

    def load_source(self, path, name):
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        scope = Scope()
        mod = Module(name, scope)
        mod.path = path
        mod.ispkg = False
        self.modules[name] = mod
        scope.vars['__name__'] = name
        self.exec_block(tree.body, scope, self.frame(mod))
        return mod

    def frame(self, mod, fn=None):
        return {'mod': mod, 'fn': fn}

    def get(self, dotted):
        """Resolve a public dotted name such as fbs.samplers.smc.bootstrap_filter (re-exports included)."""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            m = '.'.join(parts[:i])
            if self.find_module(m):
                v = self.load(m)
                ok = True
                for p in parts[i:]:
                    try:
                        v = self.getattr(v, p)
                    except (KeyError, Unmodelled, Definite, PathEnd):
                        ok = False
                        break
                if ok:
                    return v
                break
        raise Anchor(f'public name {dotted} not found')

    # -- statements ----------------------------------------------------------------------------------------------------
    def exec_block(self, stmts, sc, fr):
        for i, st in enumerate(stmts):
            sig = self.exec(st, sc, fr)
            if sig is None:
                continue
            if isinstance(sig, PartialRet):
                r = self.exec_block(stmts[i + 1:], sc, fr)
                if r is None:
                    return sig
                if isinstance(r, Ret):
                    return Ret(self.join(sig.cond, sig.v, r.v))
                if isinstance(r, PartialRet):
                    c = or_(sig.cond, r.cond)
                    return PartialRet(c, self.join(sig.cond, sig.v, r.v))
                raise Unmodelled('loop exit under a symbolic condition')
            return sig
        return None

    def setloc(self, node, fr):
        m = fr['mod']
        p = getattr(m, 'path', '?')
        self.loc = (p, getattr(node, 'lineno', 0), fr['fn'].qual if fr['fn'] else '<module>')
        tm.CUR_LOC[0] = self.loc

    def exec(self, st, sc, fr):
        self.setloc(st, fr)
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unmodelled(f'statement {type(st).__name__} at {self.loc}')
        return m(st, sc, fr)

    def x_Expr(self, st, sc, fr):
        if isinstance(st.value, ast.Constant):
            return None
        self.ev(st.value, sc, fr)

    def x_Pass(self, st, sc, fr):
        pass

    def x_Assign(self, st, sc, fr):
        v = self.ev(st.value, sc, fr)
        for t in st.targets:
            self.assign(t, v, sc, fr)

    def x_AnnAssign(self, st, sc, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, sc, fr), sc, fr)
            if isinstance(st.target, ast.Name):
                sc.vars.setdefault('__annotations__', []).append((st.target.id, True))
        elif isinstance(st.target, ast.Name):
            sc.vars.setdefault('__annotations__', []).append((st.target.id, False))

    def x_AugAssign(self, st, sc, fr):
        import copy
        t = copy.copy(st.target)
        t.ctx = ast.Load()
        if isinstance(t, ast.Name):
            try:
                old = sc.get(t.id)
            except KeyError:
                raise Definite(f'unbound name {t.id}', self.loc)
        else:
            old = self.ev(t, sc, fr)
        v = self.ev(st.value, sc, fr)
        if isinstance(old, list) and isinstance(st.op, ast.Add) and isinstance(v, (list, tuple)):
            old.extend(v)
            return
        self.assign(st.target, self.binop(st.op, old, v), sc, fr)

    def assign(self, t, v, sc, fr):
        if isinstance(t, ast.Name):
            sc.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, sc, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, sc, fr)
            if isinstance(o, (Instance, Class)):
                o.attrs[t.attr] = v
            elif isinstance(o, Func):
                o.attrs[t.attr] = v
            elif isinstance(o, (Ext, Undef)):
                pass
            elif isinstance(o, Module):
                o.env.vars[t.attr] = v
            else:
                raise Unmodelled(f'attribute assignment on {o!r}')
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, sc, fr)
            k = self.ev_index(t.slice, sc, fr)
            if isinstance(o, dict):
                o[self.hkey(k)] = v
            elif isinstance(o, list):
                if isinstance(k, int):
                    if not -len(o) <= k < len(o):
                        raise Definite('list assignment out of range', self.loc)
                    o[k] = v
                else:
                    raise Unmodelled('list slot assignment at symbolic index')
            elif isinstance(o, Arr):
                # numpy in-place assignment
                new = at_set(o, k if isinstance(k, tuple) else (k,), v)
                self.rebind(t.value, o, new, sc, fr)
            elif isinstance(o, Ext):
                pass
            else:
                raise Unmodelled(f'subscript assignment on {type(o).__name__}')
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, sc, fr)
        else:
            raise Unmodelled('assignment target')

    def rebind(self, texpr, old, new, sc, fr):
        if isinstance(texpr, ast.Name):
            s = sc
            while s is not None:
                if s.vars.get(texpr.id) is old:
                    s.vars[texpr.id] = new
                    return
                s = s.parent
        if isinstance(texpr, ast.Attribute):
            o = self.ev(texpr.value, sc, fr)
            if isinstance(o, Instance):
                o.attrs[texpr.attr] = new
                return
        raise Unmodelled('in-place array assignment')

    def hkey(self, k):
        if isinstance(k, Arr) and k.ndim == 0:
            return ('T', k.body) if ival(k.body) is None else ival(k.body)
        return k

    def unpack(self, elts, v, sc, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = self.iter_list(v, want=len(elts) if not star else None)
        if star:
            i = star[0]
            if vals is None:
                raise Unmodelled('starred unpack of symbolic sequence')
            rest = len(elts) - 1
            if len(vals) < rest:
                raise Definite('not enough values to unpack', self.loc)
            mid = vals[i:len(vals) - (rest - i)]
            seq = vals[:i] + [list(mid)] + vals[len(vals) - (rest - i):]
            for e, x in zip(elts, seq):
                self.assign(e, x, sc, fr)
            return
        if vals is None:
            # symbolic-length array unpacked into a fixed number of names: index it
            if isinstance(v, Arr):
                vals = [index(v, (i,)) for i in range(len(elts))]
            elif isinstance(v, SymSeq):
                vals = [v.at(const(i)) for i in range(len(elts))]
            else:
                raise Unmodelled('unpack of symbolic sequence')
        nreal = len(vals)
        if any(isinstance(x, StarDims) for x in vals):
            # x.shape with an unknown-rank block unpacked to names
            raise Definite('shape of unknown rank unpacked to a fixed number of names', self.loc)
        if nreal != len(elts):
            raise Definite(f'cannot unpack {nreal} values into {len(elts)} names', self.loc)
        for e, x in zip(elts, vals):
            self.assign(e, x, sc, fr)

    def iter_list(self, v, want=None):
        """Concrete list of elements or None when the length is symbolic."""
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return [k for k in v if k != KWSTAR]
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                raise Definite('iteration over a 0-d array', self.loc)
            n = ival(v.shape[0])
            if n is None or (n > 64 and want is None):
                return None
            return [index(v, (i,)) for i in range(n)]
        if isinstance(v, SymRange):
            return None
        if isinstance(v, SymSeq):
            n = ival(v.n)
            if n is None:
                return None
            return [v.at(const(i)) for i in range(n)]
        if hasattr(v, '_iter_list'):
            return v._iter_list(self, want)
        if isinstance(v, Ext):
            raise Unmodelled(f'iterate {v}')
        raise Unmodelled(f'iterate {type(v).__name__}')

    def as_seq(self, v):
        """SymSeq view of a symbolic-length iterable."""
        if isinstance(v, SymRange):
            return v.seq()
        if isinstance(v, SymSeq):
            return v
        if isinstance(v, Arr):
            i = fresh(v.shape[0])
            return SymSeq(v.shape[0], i, index(v, (scalar(i),)))
        raise Unmodelled(f'symbolic iteration over {type(v).__name__}')

    def x_Return(self, st, sc, fr):
        return Ret(self.ev(st.value, sc, fr) if st.value is not None else None)

    def x_Delete(self, st, sc, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                sc.vars.pop(t.id, None)

    def x_Global(self, st, sc, fr):
        sc.globals_decl.update(st.names)

    def x_Nonlocal(self, st, sc, fr):
        sc.nonlocal_decl.update(st.names)

    def x_Import(self, st, sc, fr):
        for a in st.names:
            if self.find_module(a.name) and a.name.split('.')[0] in ('fbs',):
                self.load(a.name)
                top = self.load(a.name.split('.')[0])
                sc.set(a.asname or a.name.split('.')[0], self.load(a.name) if a.asname else top)
            else:
                if a.asname:
                    sc.set(a.asname, Ext(a.name))
                else:
                    sc.set(a.name.split('.')[0], Ext(a.name.split('.')[0]))

    def x_ImportFrom(self, st, sc, fr):
        modname = st.module or ''
        if st.level:
            cur = fr['mod'].name.split('.')
            base = cur if fr['mod'].ispkg else cur[:-1]
            if st.level > 1:
                base = base[:-(st.level - 1)]
            modname = '.'.join(base + ([modname] if modname else []))
        if modname.split('.')[0] == 'fbs' and self.find_module(modname):
            m = self.load(modname)
            for a in st.names:
                if a.name == '*':
                    for k, v in m.env.vars.items():
                        if not k.startswith('_'):
                            sc.set(k, v)
                    continue
                if a.name in m.env.vars:
                    sc.set(a.asname or a.name, m.env.vars[a.name])
                elif self.find_module(modname + '.' + a.name):
                    sc.set(a.asname or a.name, self.load(modname + '.' + a.name))
                else:
                    raise Definite(f'cannot import {a.name} from {modname}', self.loc)
        elif modname.split('.')[0] == 'fbs':
            raise Definite(f'no module {modname}', self.loc)
        else:
            for a in st.names:
                sc.set(a.asname or a.name, Ext(modname + '.' + a.name))

    def x_FunctionDef(self, st, sc, fr):
        f = self.mkfunc(st, sc, fr)
        for d in reversed(st.decorator_list):
            dv = self.ev(d, sc, fr)
            f = self.decorate(dv, f)
        sc.set(st.name, f)

    x_AsyncFunctionDef = None

    def decorate(self, d, f):
        if isinstance(d, Ext):
            p = self.canon(d.path)
            if p in ('staticmethod',):
                return ('staticmethod', f)
            if p == 'classmethod':
                return ('classmethod', f)
            if p == 'property' or p.endswith('cached_property'):
                return ('property', f)
            if p.startswith('typing.') or p.startswith('abc.') or p.endswith('.compact') or p.endswith('nowrap'):
                return f
            if p in ('functools.wraps', 'functools.lru_cache', 'functools.cache', 'contextlib.contextmanager'):
                return f
        return self.call(d, [f], {})

    def mkfunc(self, st, sc, fr):
        a = st.args
        defaults = [self.ev(d, sc, fr) for d in a.defaults]
        kwd = [self.ev(d, sc, fr) if d is not None else _NODEF for d in a.kw_defaults]
        name = getattr(st, 'name', '<lambda>')
        outer = fr['fn'].qual + '.' if fr['fn'] else fr['mod'].name + '.'
        return Func(st, sc, fr['mod'], name, defaults, kwd, outer + name)

    def x_ClassDef(self, st, sc, fr):
        bases = [self.ev(b, sc, fr) for b in st.bases]
        csc = Scope(sc)
        outer = fr['fn'].qual + '.' if fr['fn'] else fr['mod'].name + '.'
        self.exec_block(st.body, csc, fr)
        attrs = csc.vars
        ann = attrs.pop('__annotations__', [])
        c = Class(st.name, [b for b in bases if isinstance(b, (Class, Ext))], attrs, fr['mod'], outer + st.name)
        c.fields = ann
        c.decos = []
        for d in st.decorator_list:
            dv = self.ev(d, sc, fr)
            if isinstance(dv, Ext) and 'dataclass' in dv.path or isinstance(dv, Partial):
                c.decos.append('dataclass')
        sc.set(st.name, c)

    def x_If(self, st, sc, fr):
        t = self.ev(st.test, sc, fr)
        b = self.truth(t)
        if b is True:
            return self.exec_block(st.body, sc, fr)
        if b is False:
            return self.exec_block(st.orelse, sc, fr)
        self.check_branch(b)
        c = b
        snap = self.snapshot(sc)
        sig1 = exc1 = None
        self.conds.append(c)
        try:
            sig1 = self.exec_block(st.body, sc, fr)
        except PathEnd as e:
            exc1 = e
        finally:
            self.conds.pop()
        env1 = self.snapshot(sc)
        self.restore(sc, snap)
        sig2 = exc2 = None
        self.conds.append(not_(c))
        try:
            sig2 = self.exec_block(st.orelse, sc, fr)
        except PathEnd as e:
            exc2 = e
        finally:
            self.conds.pop()
        if exc1 and exc2:
            raise exc1
        if exc1:
            return sig2
        if exc2:
            self.restore(sc, env1)
            return sig1
        env2 = self.snapshot(sc)
        if sig1 is None and sig2 is None:
            self.merge_env(c, sc, env1, env2)
            return None
        if isinstance(sig1, Ret) and isinstance(sig2, Ret):
            return Ret(self.join(c, sig1.v, sig2.v))
        if isinstance(sig1, Ret) and sig2 is None:
            return PartialRet(c, sig1.v)
        if isinstance(sig2, Ret) and sig1 is None:
            self.restore(sc, env1)
            return PartialRet(not_(c), sig2.v)
        if isinstance(sig1, (PartialRet, Ret)) or isinstance(sig2, (PartialRet, Ret)):
            def norm(s):
                if s is None:
                    return ZERO, None
                if isinstance(s, Ret):
                    return ONE, s.v
                if isinstance(s, PartialRet):
                    return s.cond, s.v
                raise Unmodelled('mixed control exits')

            c1, v1 = norm(sig1)
            c2, v2 = norm(sig2)
            if isinstance(sig1, Ret):
                pass
            elif isinstance(sig2, Ret):
                self.restore(sc, env1)
            else:
                self.merge_env(c, sc, env1, env2)
            rc = ite(c, c1, c2)
            if sig1 is None:
                v = v2
            elif sig2 is None:
                v = v1
            else:
                v = self.join(c, v1, v2)
            return PartialRet(rc, v)
        if sig1 in (CONT, BREAK) or sig2 in (CONT, BREAK):
            raise Unmodelled('break/continue under a symbolic condition')
        return None

    def check_branch(self, c):
        if not host_only(c):
            raise Definite('Python control flow depends on a traced array value (fails under jit/vmap/scan)', self.loc)

    def snapshot(self, sc):
        s = {}
        scopes = []
        x = sc
        while x is not None:
            scopes.append(x)
            x = x.parent
        for k, v in sc.vars.items():
            s[k] = (v, self.shallow(v))
        insts = []
        for x in scopes[:3]:
            for v in x.vars.values():
                if isinstance(v, Instance):
                    insts.append((v, dict(v.attrs)))
        return s, insts

    def shallow(self, v):
        if isinstance(v, list):
            return list(v)
        if isinstance(v, dict):
            return dict(v)
        return None

    def restore(self, sc, snap):
        s, insts = snap
        for k in list(sc.vars):
            if k not in s:
                del sc.vars[k]
        for k, (v, cp) in s.items():
            if isinstance(v, list) and cp is not None:
                v = list(cp)
            elif isinstance(v, dict) and cp is not None:
                v = dict(cp)
            sc.vars[k] = v
        for o, at in insts:
            o.attrs.clear()
            o.attrs.update(at)

    def merge_env(self, c, sc, e1, e2):
        v1 = {k: (list(cp) if isinstance(v, list) else dict(cp) if isinstance(v, dict) else v)
              for k, (v, cp) in e1[0].items()}
        v2 = {k: (list(cp) if isinstance(v, list) else dict(cp) if isinstance(v, dict) else v)
              for k, (v, cp) in e2[0].items()}
        for k in set(v1) | set(v2):
            a, b = v1.get(k, _MISSING), v2.get(k, _MISSING)
            if a is b:
                sc.vars[k] = a
            elif a is _MISSING or b is _MISSING:
                sc.vars[k] = Undef(k)
            else:
                try:
                    sc.vars[k] = self.join(c, a, b)
                except (Unmodelled, Definite):
                    sc.vars[k] = Undef(k)
        i1 = {id(o): (o, at) for o, at in e1[1]}
        i2 = {id(o): (o, at) for o, at in e2[1]}
        for i in i1:
            o, a1 = i1[i]
            a2 = i2[i][1] if i in i2 else a1
            o.attrs.clear()
            for k in set(a1) | set(a2):
                if k in a1 and k in a2:
                    o.attrs[k] = a1[k] if a1[k] is a2[k] else self.join(c, a1[k], a2[k])
                else:
                    o.attrs[k] = Undef(k)

    def join(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
            r = [self.join(c, x, y) for x, y in zip(a, b)]
            if isinstance(a, NT):
                return NT(a.k, r)
            return type(a)(r) if not isinstance(a, NT) else r
        if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
            return {k: self.join(c, a[k], b[k]) for k in a}
        if isinstance(a, str) and a == b:
            return a
        if isinstance(a, (int, Fr, float, bool)) and isinstance(b, (int, Fr, float, bool)) and a == b:
            return a
        if isinstance(a, (Arr, int, Fr, float, bool)) and isinstance(b, (Arr, int, Fr, float, bool)):
            x, y = lift(a), lift(b)
            if x.ndim != y.ndim:
                raise Definite('joined values have different ranks', self.loc)
            return ew(lambda p, q: ite(c, p, q), x, y)
        if type(a) is type(b) and not isinstance(a, (Instance, Func)) and a == b:
            return a
        if isinstance(a, Func) and isinstance(b, Func) or isinstance(a, (Native, Partial, Opaque, Bound, Ext)):
            return Native('join', lambda it, args, kw: it.join(c, it.call(a, args, kw), it.call(b, args, kw)))
        raise Unmodelled(f'join of {type(a).__name__} and {type(b).__name__}')

    def x_For(self, st, sc, fr):
        it = self.ev(st.iter, sc, fr)
        vals = self.iter_list(it)
        if vals is not None:
            for v in vals:
                self.assign(st.target, v, sc, fr)
                sig = self.exec_block(st.body, sc, fr)
                if sig is BREAK:
                    return None
                if isinstance(sig, Ret):
                    return sig
                if isinstance(sig, PartialRet):
                    raise Unmodelled('conditional return in loop')
            return self.exec_block(st.orelse, sc, fr)
        return self.sym_for(st, self.as_seq(it), sc, fr)

    def sym_for(self, st, seq, sc, fr):
        """Summarise a loop of symbolic length as a recurrence."""
        assigned = assigned_names(st.body) | assigned_names([st.target] if False else [])
        tgt = target_names(st.target)
        carried = sorted(n for n in assigned if n in sc.vars and n not in tgt and not isinstance(sc.vars[n], Undef))
        lists = sorted(n for n in appended_names(st.body))
        k = fresh(seq.n, tag='k')
        tm.PROPS[k]['nonneg'] = True
        leaves, rebuilders = [], {}
        saved = dict(sc.vars)
        init_leaves = []
        for n in carried:
            fl, rb = self.flatten(sc.vars[n])
            rebuilders[n] = (len(init_leaves), len(fl), rb)
            init_leaves += fl
        phs = []
        for l in init_leaves:
            phs.append(fresh_cvar(l.shape, l.kind))
        for n in carried:
            o, m, rb = rebuilders[n]
            sc.vars[n] = rb([of_node(phs[o + q]) for q in range(m)])
        grow = {}
        for n in lists:
            try:
                base = sc.get(n)
            except KeyError:
                continue
            if isinstance(base, list):
                g = GrowList(base)
                grow[n] = (g, base)
                self.set_existing(sc, n, g)
            elif isinstance(base, SymSeq):
                g = GrowList([])
                grow[n] = (g, base)
                self.set_existing(sc, n, g)
        self.assign(st.target, seq.at(k), sc, fr)
        before = len(self.effects)
        sig = self.exec_block(st.body, sc, fr)
        if sig not in (None, CONT):
            raise Unmodelled('early exit from a loop of symbolic length')
        comps = []
        new_leaves = []
        for n in list(carried):
            o, m, rb = rebuilders[n]
            try:
                fl, _ = self.flatten(sc.vars[n])
            except Unmodelled:
                fl = None
            if fl is None or len(fl) != m or any(len(a.shape) != len(b.shape) or any(
                    known_eq(x, y) is not True for x, y in zip(a.shape, b.shape))
                    for a, b in zip(init_leaves[o:o + m], fl) if isinstance(a, Arr) and isinstance(b, Arr)):
                if not assigned_first(st.body, n) and any(reads(x, n) for x in st.body):
                    raise Unmodelled(f'loop-carried structure of {n} changes')
                # not carried: every iteration assigns it before its use
                carried.remove(n)
                fl = init_leaves[o:o + m]
            new_leaves += fl
        retype = {}
        for q, (p, nl) in enumerate(zip(phs, new_leaves)):
            if p.kind in 'ib' and nl.kind != p.kind and nl.kind in 'fi':
                p2 = fresh_cvar(p.shape, nl.kind)
                retype[p] = p2
                phs[q] = p2
        if retype:
            new_leaves = [vmapv(nl, lambda t: subst(t, retype)) for nl in new_leaves]
            for g, base in grow.values():
                g.new[:] = [vmapv(x, lambda t: subst(t, retype)) for x in g.new]
            for e in self.effects[before:]:
                e.map(lambda t: subst(t, retype))
        for l, ph, nl in zip(init_leaves, phs, new_leaves):
            if len(l.shape) != len(nl.shape) or any(known_eq(x, y) is not True for x, y in zip(l.shape, nl.shape)):
                raise Unmodelled('loop-carried array changes shape')
            comps.append(Comp(l.shape, ph.kind, ph, l.node(), nl.node()))
        orb = Orbit(comps, k)
        for n in assigned - set(carried):
            sc.vars[n] = Undef(n)
        for n in carried:
            o, m, rb = rebuilders[n]
            sc.vars[n] = rb([of_node(orb.at(o + q, seq.n)) for q in range(m)])
        for e in self.effects[before:]:
            j = fresh(seq.n)
            tm.PROPS[j]['nonneg'] = True
            e.map(lambda t: orb.at_expr(fold_updates(t, comps, orb, k), j))
            e.loops.append((j, seq.n))
        for n, (g, base) in grow.items():
            if len(g.new) > 1:
                raise Unmodelled('several appends per iteration')
            if g.new:
                j = fresh(seq.n)
                val = vmapv(g.new[0], lambda t: orb.at_expr(fold_updates(t, comps, orb, k), j))
                s = SymSeq(seq.n, j, val)
                if isinstance(base, SymSeq):
                    s = concat_seq(base, s)
                elif base:
                    s = concat_seq(list_to_seq(base), s)
                self.set_existing(sc, n, s)
            else:
                self.set_existing(sc, n, base)
        for n in tgt:
            try:
                sc.vars[n] = vmapv(seq.value, lambda t: subst(t, {seq.v: sub(seq.n, ONE)})) \
                    if isinstance(st.target, ast.Name) else Undef(n)
            except Exception:
                sc.vars[n] = Undef(n)
        return None

    def set_existing(self, sc, n, v):
        s = sc
        while s is not None:
            if n in s.vars:
                s.vars[n] = v
                return
            s = s.parent
        sc.vars[n] = v

    def x_While(self, st, sc, fr):
        for _ in range(200):
            b = self.truth(self.ev(st.test, sc, fr))
            if b is False:
                return self.exec_block(st.orelse, sc, fr)
            if b is not True:
                raise Unmodelled('while loop with symbolic condition')
            sig = self.exec_block(st.body, sc, fr)
            if sig is BREAK:
                return None
            if isinstance(sig, (Ret, PartialRet)):
                return sig
        raise Unmodelled('while loop does not terminate statically')

    def x_Break(self, st, sc, fr):
        return BREAK

    def x_Continue(self, st, sc, fr):
        return CONT

    def x_Assert(self, st, sc, fr):
        try:
            b = self.truth(self.ev(st.test, sc, fr))
        except Unmodelled:
            return
        if b is False:
            raise Definite('assertion always fails', self.loc)

    def x_Raise(self, st, sc, fr):
        what = ast.unparse(st.exc) if st.exc is not None else 'raise'
        raise PathEnd(what, self.loc)

    def x_With(self, st, sc, fr):
        for it in st.items:
            v = self.ev(it.context_expr, sc, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, sc, fr)
        return self.exec_block(st.body, sc, fr)

    def x_Try(self, st, sc, fr):
        try:
            r = self.exec_block(st.body, sc, fr)
        except PathEnd:
            if st.handlers:
                r = self.exec_block(st.handlers[0].body, sc, fr)
            else:
                raise
        else:
            if r is None:
                r = self.exec_block(st.orelse, sc, fr)
        if st.finalbody:
            r2 = self.exec_block(st.finalbody, sc, fr)
            r = r2 if r2 is not None else r
        return r

    def x_Match(self, st, sc, fr):
        subj = self.ev(st.subject, sc, fr)
        for case in st.cases:
            ok = self.match(case.pattern, subj, sc, fr)
            if ok is True and case.guard is not None:
                ok = self.truth(self.ev(case.guard, sc, fr))
            if ok is True:
                return self.exec_block(case.body, sc, fr)
            if ok is not False:
                raise Unmodelled('symbolic match')
        return None

    def match(self, p, v, sc, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value, sc, fr)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                r = self.match(p.pattern, v, sc, fr)
                if r is not True:
                    return r
            if p.name:
                sc.set(p.name, v)
            return True
        if isinstance(p, ast.MatchOr):
            for q in p.patterns:
                r = self.match(q, v, sc, fr)
                if r is not False:
                    return r
            return False
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(isinstance_(self, v, self.ev(p.cls, sc, fr)))
        raise Unmodelled('match pattern')

    # -- pytrees -------------------------------------------------------------------------------------------------------
    def flatten(self, v):
        """leaves (Arr) and a rebuild function."""
        if v is None:
            return [], lambda ls: None
        if isinstance(v, NT):
            parts = [self.flatten(x) for x in v]
            return sum((p[0] for p in parts), []), lambda ls, parts=parts, k=v.k: NT(k, _rebuild_parts(parts, ls))
        if isinstance(v, (tuple, list)):
            parts = [self.flatten(x) for x in v]
            ty = list if isinstance(v, list) else tuple
            return sum((p[0] for p in parts), []), lambda ls, parts=parts: ty(_rebuild_parts(parts, ls))
        if isinstance(v, dict):
            ks = sorted(v, key=repr)
            parts = [self.flatten(v[k]) for k in ks]
            return sum((p[0] for p in parts), []), lambda ls: dict(zip(ks, _rebuild_parts(parts, ls)))
        if isinstance(v, (str, Func, Class, Ext, Native, Partial, Opaque, Module, Bound, Instance)):
            return [], lambda ls: v
        if hasattr(v, '_flatten'):
            return v._flatten(self)
        a = lift(v)
        return [a], lambda ls: ls[0]

    def tree_def(self, v):
        if v is None:
            return None
        if isinstance(v, (tuple, list)):
            return ('t' if not isinstance(v, list) else 'l',) + tuple(self.tree_def(x) for x in v)
        if isinstance(v, dict):
            return ('d',) + tuple((k, self.tree_def(v[k])) for k in sorted(v, key=repr))
        return '*'

    # -- truth ---------------------------------------------------------------------------------------------------------
    def truth(self, v):
        """True / False / a 0-1 node."""
        if isinstance(v, Arr):
            if v.ndim != 0:
                c = cval(v.body)
                if all(ival(s) == 1 for s in v.shape):
                    return self.truth(scalar(v.at([ZERO] * v.ndim)))
                raise Definite('truth value of an array', self.loc)
            t = v.body
            c = cval(t)
            if c is not None:
                return c != 0
            if t.kind == 'b' or (t.op == 'poly' and inds_of(t)):
                return t
            return not_(eq0(t))
        if isinstance(v, T):
            return self.truth(scalar(v))
        if v is None:
            return False
        if isinstance(v, (bool, int, Fr, float, str, list, tuple, dict, set, range)):
            return bool(v)
        if isinstance(v, SymStr):
            return True
        if isinstance(v, (Func, Class, Instance, Native, Opaque, Partial, Bound, Module, Ext)):
            return True
        if isinstance(v, SymSeq):
            return True
        if isinstance(v, SymRange):
            return True
        if hasattr(v, '_truth'):
            return v._truth()
        raise Unmodelled(f'truth of {type(v).__name__}')

    # -- expressions ---------------------------------------------------------------------------------------------------
    def ev(self, e, sc, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unmodelled(f'expression {type(e).__name__} at {self.loc}')
        if isinstance(e, (ast.Call, ast.BinOp)):
            self.setloc(e, fr)
        return m(e, sc, fr)

    def e_Constant(self, e, sc, fr):
        if isinstance(e.value, float):
            return float_lit(e.value)
        return e.value

    def e_Name(self, e, sc, fr):
        try:
            v = sc.get(e.id)
        except KeyError:
            if e.id in BUILTINS:
                return Ext(e.id)
            self.setloc(e, fr)
            raise Definite(f'unbound name {e.id}', self.loc)
        if isinstance(v, Undef):
            raise Unmodelled(f'{e.id}: {v.why}')
        return v

    def e_NamedExpr(self, e, sc, fr):
        v = self.ev(e.value, sc, fr)
        self.assign(e.target, v, sc, fr)
        return v

    def e_Tuple(self, e, sc, fr):
        return tuple(self.ev_elts(e.elts, sc, fr))

    def e_List(self, e, sc, fr):
        r = self.ev_elts(e.elts, sc, fr)
        return list(r)

    def e_Set(self, e, sc, fr):
        return set(self.ev_elts(e.elts, sc, fr))

    def ev_elts(self, elts, sc, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, sc, fr)
                l = self.iter_list(v)
                if l is None:
                    if len(elts) == 1:
                        return [self.as_seq(v)]
                    raise Unmodelled('star of symbolic sequence')
                out += l
            else:
                out.append(self.ev(x, sc, fr))
        return out

    def e_Dict(self, e, sc, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, sc, fr))
            else:
                d[self.hkey(self.ev(k, sc, fr))] = self.ev(v, sc, fr)
        return d

    def e_Lambda(self, e, sc, fr):
        return self.mkfunc(e, sc, fr)

    def e_IfExp(self, e, sc, fr):
        b = self.truth(self.ev(e.test, sc, fr))
        if b is True:
            return self.ev(e.body, sc, fr)
        if b is False:
            return self.ev(e.orelse, sc, fr)
        self.setloc(e, fr)
        self.check_branch(b)
        return self.join(b, self.ev(e.body, sc, fr), self.ev(e.orelse, sc, fr))

    def e_BoolOp(self, e, sc, fr):
        isand = isinstance(e.op, ast.And)
        acc = None
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, sc, fr)
            b = self.truth(v)
            if b is True:
                if not isand:
                    return v if acc is None else scalar(ONE)
                continue
            if b is False:
                if isand:
                    return v if acc is None else scalar(ZERO)
                continue
            self.check_branch(b)
            acc = b if acc is None else (mul(acc, b) if isand else or_(acc, b))
        if acc is None:
            return v
        return scalar(acc)

    def e_UnaryOp(self, e, sc, fr):
        v = self.ev(e.operand, sc, fr)
        op = e.op
        if isinstance(op, ast.Not):
            b = self.truth(v)
            if isinstance(b, bool):
                return not b
            return scalar(not_(b))
        if isinstance(op, ast.USub):
            if isinstance(v, (int, Fr, float)):
                return -v
            if isinstance(v, Instance):
                raise Unmodelled('neg of object')
            return ew(neg, v)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, bool):
                return not v
            if isinstance(v, int):
                return ~v
            a = lift(v)
            return ew(not_, a)
        raise Unmodelled('unary op')

    def e_BinOp(self, e, sc, fr):
        a = self.ev(e.left, sc, fr)
        b = self.ev(e.right, sc, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        o = type(op).__name__
        if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
            if o == 'Add' and isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
                return cat_str([a, b])
            if o == 'Mod' and isinstance(a, str):
                return SymStr([a, b])
            if o == 'Mult':
                return a * b
            if o == 'Div' and hasattr(a, 'parts'):
                return cat_str([a, '/', b])
            raise Unmodelled('string arithmetic')
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if o == 'Add' and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                return (list(a) + list(b)) if isinstance(a, list) else tuple(a) + tuple(b)
            if o == 'Add' and isinstance(a, list) and isinstance(b, SymSeq):
                return concat_seq(list_to_seq(a), b) if a else b
            if o == 'Add' and isinstance(b, list) and isinstance(a, SymSeq):
                return concat_seq(a, list_to_seq(b)) if b else a
            if o == 'Mult':
                x, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
                if isinstance(n, int):
                    return x * n
                if isinstance(n, Arr) and n.ndim == 0 and n.kind == 'i' and isinstance(x, list) and len(x) == 1:
                    v = fresh(n.body)
                    return SymSeq(n.body, v, x[0])
            if o in ('Add', 'Mult', 'Sub', 'Div') and (isinstance(a, Arr) or isinstance(b, Arr)):
                pass
            elif o in ('MatMult',):
                pass
            else:
                raise Unmodelled('sequence arithmetic')
        if isinstance(a, SymSeq) and isinstance(b, SymSeq) and o == 'Add':
            return concat_seq(a, b)
        if isinstance(a, dict) and isinstance(b, dict) and o == 'BitOr':
            return {**a, **b}
        if isinstance(a, Ext) or isinstance(b, Ext):
            if o == 'BitOr':
                return a
            if isinstance(a, Ext):
                a = self.ext_value(a)
            if isinstance(b, Ext):
                b = self.ext_value(b)
        if isinstance(a, (int, Fr)) and isinstance(b, (int, Fr)):
            return self.num_binop(o, a, b)
        if isinstance(a, Instance) or isinstance(b, Instance):
            nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__',
                  'MatMult': '__matmul__'}.get(o)
            if isinstance(a, Instance) and nm and a.cls.lookup(nm):
                return self.call(self.getattr(a, nm), [b], {})
            raise Unmodelled('arithmetic on object')
        if o == 'MatMult':
            return matmul(a, b)
        f = {'Add': add, 'Sub': sub, 'Mult': mul, 'Div': div, 'Pow': power, 'FloorDiv': floordiv, 'Mod': mod,
             'BitAnd': mul, 'BitOr': or_, 'BitXor': lambda x, y: sub(add(x, y), mul(const(2), mul(x, y)))}.get(o)
        if f is None:
            raise Unmodelled(f'operator {o}')
        a, b = lift(a), lift(b)
        for z in (a, b):
            if z.kind == 'k':
                raise Unmodelled('arithmetic on PRNG key')
        return ew(f, a, b)

    def num_binop(self, o, a, b):
        if o == 'Add':
            return a + b
        if o == 'Sub':
            return a - b
        if o == 'Mult':
            return a * b
        if o == 'Div':
            if b == 0:
                raise Definite('division by zero', self.loc)
            return Fr(a) / Fr(b)
        if o == 'FloorDiv':
            if b == 0:
                raise Definite('division by zero', self.loc)
            return a // b
        if o == 'Mod':
            return a % b
        if o == 'Pow':
            if isinstance(b, int) or (isinstance(b, Fr) and b.denominator == 1):
                if isinstance(a, int) and b >= 0:
                    return a ** int(b)
                return Fr(a) ** int(b)
            return scalar(power(const(a), const(b)))
        if o == 'LShift':
            return a << b
        if o == 'RShift':
            return a >> b
        if o == 'BitAnd':
            return a & b
        if o == 'BitOr':
            return a | b
        if o == 'BitXor':
            return a ^ b
        if o == 'MatMult':
            raise Definite('matmul of scalars', self.loc)
        raise Unmodelled(o)

    def e_Compare(self, e, sc, fr):
        l = self.ev(e.left, sc, fr)
        res = None
        for op, r_ in zip(e.ops, e.comparators):
            r = self.ev(r_, sc, fr)
            x = self.compare(op, l, r)
            if res is None:
                res = x
            else:
                b1, b2 = self.truth(res), self.truth(x)
                if b1 is False or b2 is False:
                    res = False
                elif b1 is True:
                    res = x
                elif b2 is True:
                    pass
                else:
                    res = scalar(mul(b1, b2))
            l = r
        return res

    def compare(self, op, a, b):
        o = type(op).__name__
        if o in ('Is', 'IsNot'):
            if a is None or b is None or isinstance(a, (bool, str, Class)) or isinstance(b, (bool, str, Class)):
                r = a is b
            elif isinstance(a, Ext) and isinstance(b, Ext):
                r = a.path == b.path
            else:
                r = a is b
            return r if o == 'Is' else not r
        if o in ('In', 'NotIn'):
            r = self.contains(a, b)
            if isinstance(r, bool):
                return r if o == 'In' else not r
            return r if o == 'In' else scalar(not_(r.body))
        if o in ('Eq', 'NotEq'):
            r = self.equal(a, b)
            if isinstance(r, bool):
                return r if o == 'Eq' else not r
            return r if o == 'Eq' else ew(not_, r)
        if isinstance(a, (int, Fr, float)) and isinstance(b, (int, Fr, float)):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[o]
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[o]
        f = {'Lt': lt, 'LtE': le, 'Gt': lambda x, y: lt(y, x), 'GtE': lambda x, y: le(y, x)}[o]
        if isinstance(a, Ext):
            a = self.ext_value(a)
        if isinstance(b, Ext):
            b = self.ext_value(b)
        return simp_bool(ew(f, a, b))

    def equal(self, a, b):
        if isinstance(a, Ext) and a.path in LIBCONST:
            a = self.ext_value(a)
        if isinstance(b, Ext) and b.path in LIBCONST:
            b = self.ext_value(b)
        if isinstance(a, (int, Fr, float, str, bool, type(None))) and isinstance(b, (int, Fr, float, str, bool, type(None))):
            return a == b
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if isinstance(a, SymStr) and isinstance(b, SymStr):
                if a.parts == b.parts:
                    return True
            r = symstr_eq(a, b)
            if r is None:
                raise Unmodelled('comparison of symbolic strings')
            return r
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if isinstance(a, list) != isinstance(b, list):
                return False
            if len(a) != len(b):
                return False
            acc = ONE
            for x, y in zip(a, b):
                if isinstance(x, StarDims) or isinstance(y, StarDims):
                    if x == y:
                        continue
                    return False
                r = self.truth(self.equal(x, y))
                if r is False:
                    return False
                if r is not True:
                    acc = mul(acc, r)
            return True if acc is ONE else scalar(acc)
        if isinstance(a, (Arr, SymSeq)) or isinstance(b, (Arr, SymSeq)):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return False
            return simp_bool(ew(eq, a, b))
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        return a is b

    def contains(self, a, b):
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if isinstance(b, SymStr) and isinstance(a, str):
            r = any(isinstance(p, str) and a in p for p in b.parts)
            return r
        if isinstance(b, dict):
            return self.hkey(a) in b
        if isinstance(b, (list, tuple, set, range, frozenset)):
            acc = ZERO
            for x in b:
                r = self.truth(self.equal(a, x))
                if r is True:
                    return True
                if r is not False:
                    acc = or_(acc, r)
            return False if acc is ZERO else scalar(acc)
        raise Unmodelled('in')

    def e_JoinedStr(self, e, sc, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.ev(v.value, sc, fr)
                except (Unmodelled, Definite):
                    x = Undef('fmt')
                fs = ''
                if v.format_spec is not None:
                    fs = ''.join(c.value for c in v.format_spec.values if isinstance(c, ast.Constant))
                parts.append(fmt(x, fs, chr(v.conversion) if v.conversion and v.conversion > 0 else ''))
        return cat_str(parts)

    def e_FormattedValue(self, e, sc, fr):
        return fmt(self.ev(e.value, sc, fr), '', '')

    def e_Starred(self, e, sc, fr):
        return self.ev(e.value, sc, fr)

    def e_Slice(self, e, sc, fr):
        return slice(*[None if x is None else self.ev(x, sc, fr) for x in (e.lower, e.upper, e.step)])

    def ev_index(self, s, sc, fr):
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_elts(s.elts, sc, fr))
        return self.ev(s, sc, fr)

    def e_Subscript(self, e, sc, fr):
        o = self.ev(e.value, sc, fr)
        k = self.ev_index(e.slice, sc, fr)
        self.setloc(e, fr)
        return self.getitem(o, k)

    def getitem(self, o, k):
        if isinstance(k, Arr) and k.ndim == 0 and ival(k.body) is not None and isinstance(o, (list, tuple, str)):
            k = ival(k.body)
        if isinstance(k, Ext):
            k = self.ext_value(k)
        if isinstance(o, (list, tuple)) and not isinstance(o, Arr):
            star = [i for i, x in enumerate(o) if isinstance(x, StarDims)]
            if star:
                return self.shape_item(o, k, star[0])
            if isinstance(k, int):
                if not -len(o) <= k < len(o):
                    raise Definite('index out of range', self.loc)
                return o[k]
            if isinstance(k, slice):
                k = slice(*[int(x) if isinstance(x, bool) else (ival(x.body) if isinstance(x, Arr) else x)
                            for x in (k.start, k.stop, k.step)])
                return o[k]
            if isinstance(k, Arr) and k.ndim == 0:
                try:
                    return index(lift(o), (k,))
                except Unmodelled:
                    raise
            raise Unmodelled(f'list index {k!r}')
        if isinstance(o, (str,)):
            if isinstance(k, slice):
                return o[k]
            return o[k]
        if isinstance(o, dict):
            kk = self.hkey(k)
            if kk not in o:
                raise Definite(f'missing dictionary key {kk!r}', self.loc)
            return o[kk]
        if isinstance(o, SymSeq):
            if isinstance(k, int):
                if k < 0:
                    return o.at(add(o.n, const(k)))
                return o.at(const(k))
            if isinstance(k, Arr) and k.ndim == 0:
                return o.at(wrap_index(k.body, o.n))
            if isinstance(k, slice):
                st, ln, sp = norm_slice(k, o.n)
                v = fresh(ln)
                return SymSeq(ln, v, o.at(add(st, mul(const(sp), v))))
            raise Unmodelled('symbolic list index')
        if isinstance(o, SymRange):
            return self.getitem(o.seq(), k)
        if isinstance(o, range):
            return o[k]
        if isinstance(o, AtProxy):
            return AtProxy(o.x, k if isinstance(k, tuple) else (k,))
        if isinstance(o, Arr):
            if isinstance(k, tuple):
                k = tuple(self.ext_value(x) if isinstance(x, Ext) else x for x in k)
            return index(o, k)
        if isinstance(o, (Ext, Class)):
            return o  # typing subscription
        if hasattr(o, '_getitem'):
            return o._getitem(self, k)
        if isinstance(o, Instance) and o.cls.lookup('__getitem__'):
            return self.call(self.getattr(o, '__getitem__'), [k], {})
        if isinstance(o, (SymStr,)):
            raise Unmodelled('index symbolic string')
        if isinstance(o, (int, Fr)):
            raise Definite('indexing a scalar', self.loc)
        raise Unmodelled(f'subscript of {type(o).__name__}')

    def shape_item(self, o, k, s):
        n = len(o)
        if isinstance(k, int):
            if 0 <= k < s:
                return o[k]
            if k < 0 and n + k > s:
                return o[k]
            raise Definite('size of one axis inside a state block of arbitrary rank', self.loc)
        if isinstance(k, slice):
            a, b = k.start, k.stop
            if k.step not in (None, 1):
                raise Unmodelled('strided shape')
            lo = 0 if a is None else a
            if lo < 0:
                lo = n + lo
                if lo <= s:
                    raise Definite('slice inside a state block of arbitrary rank', self.loc)
            elif lo > s:
                raise Definite('slice inside a state block of arbitrary rank', self.loc)
            if b is None:
                hi = n
            elif b < 0:
                hi = n + b
                if hi <= s and not hi == s + 1 - 1 + 0:
                    raise Definite('slice inside a state block of arbitrary rank', self.loc)
                if hi < s + 1:
                    raise Definite('slice inside a state block of arbitrary rank', self.loc)
            else:
                hi = b
                if hi > s:
                    raise Definite('slice inside a state block of arbitrary rank', self.loc)
            return o[lo:hi]
        raise Unmodelled('shape index')

    def e_Attribute(self, e, sc, fr):
        o = self.ev(e.value, sc, fr)
        self.setloc(e, fr)
        return self.getattr(o, e.attr)

    def getattr(self, o, a):
        if isinstance(o, Ext):
            return self.ext_attr(o, a)
        if hasattr(o, '_attr'):
            return o._attr(self, a)
        if isinstance(o, Module):
            if a in o.env.vars:
                return o.env.vars[a]
            m = o.name + '.' + a
            if self.find_module(m):
                return self.load(m)
            raise Definite(f'module {o.name} has no attribute {a}', self.loc)
        if isinstance(o, Instance):
            if a in o.attrs:
                v = o.attrs[a]
                if isinstance(v, Undef):
                    raise Unmodelled(f'attribute {a} set on one path only')
                return v
            if a == '__class__':
                return o.cls
            if a == '__dict__':
                return o.attrs
            v = o.cls.lookup(a)
            if v is None:
                r = self.instance_ext_attr(o, a)
                if r is not None:
                    return r
                raise Definite(f'{o.cls.name} object has no attribute {a}', self.loc)
            return self.bind(v, o)
        if isinstance(o, NT):
            names = [f for f, _ in o.k.fields]
            if a in names:
                return o[names.index(a)]
            if a == '_replace':
                def rep(it, args, kw):
                    vals = list(o)
                    for k_, v_ in kw.items():
                        vals[names.index(k_)] = v_
                    return NT(o.k, vals)
                return Native('_replace', rep)
            if a == '_asdict':
                return Native('_asdict', lambda it, ar_, kw: dict(zip(names, o)))
            v = o.k.lookup(a)
            if v is not None:
                return self.bind(v, o)
            raise Definite(f'{o.k.name} has no field {a}', self.loc)
        if isinstance(o, Class):
            if a == '__name__':
                return o.name
            v = o.lookup(a)
            if v is None:
                if o.has_ext_base(('Module',)):
                    raise Unmodelled(f'class attribute {a}')
                raise Definite(f'class {o.name} has no attribute {a}', self.loc)
            if isinstance(v, tuple) and len(v) == 2 and v[0] in ('staticmethod',):
                return v[1]
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'classmethod':
                return Bound(v[1], o)
            return v
        if isinstance(o, Super):
            found = False
            for c in o.inst.cls.mro():
                if found:
                    if isinstance(c, Class) and a in c.attrs:
                        return self.bind(c.attrs[a], o.inst)
                    if isinstance(c, Ext) and a == '__init__':
                        return Native('init', lambda it, args, kw: None)
                if c is o.cls:
                    found = True
            if a == '__init__':
                return Native('init', lambda it, args, kw: None)
            raise Definite(f'super has no {a}', self.loc)
        if isinstance(o, Func):
            if a == '__name__':
                return o.name
            if a in o.attrs:
                return o.attrs[a]
            if a in ('__doc__',):
                return ''
            raise Unmodelled(f'function attribute {a}')
        from . import lib
        return lib.value_attr(self, o, a)

    def instance_ext_attr(self, o, a):
        from . import lib
        return lib.instance_ext_attr(self, o, a)

    def bind(self, v, o):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'staticmethod':
            return v[1]
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'classmethod':
            return Bound(v[1], o.cls if isinstance(o, Instance) else o.k)
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'property':
            return self.call(v[1], [o], {})
        if isinstance(v, (Func, Native, Partial)):
            return Bound(v, o)
        return v

    def ext_attr(self, o, a):
        return Ext(o.path + '.' + a)

    def canon(self, path):
        from . import lib
        return lib.canon(path)

    def ext_value(self, x):
        p = self.canon(x.path)
        from . import lib
        if p in self.ext_values:
            return self.ext_values[p]
        v = lib.const_value(p)
        if v is None:
            raise Unmodelled(f'value of {x.path}')
        return v if v is not lib.NEWAXIS else None

    def e_ListComp(self, e, sc, fr):
        return self.comp(e.generators, lambda s: self.ev(e.elt, s, fr), sc, fr)

    def e_GeneratorExp(self, e, sc, fr):
        return self.comp(e.generators, lambda s: self.ev(e.elt, s, fr), sc, fr)

    def e_SetComp(self, e, sc, fr):
        r = self.comp(e.generators, lambda s: self.ev(e.elt, s, fr), sc, fr)
        return set(r) if isinstance(r, list) else r

    def e_DictComp(self, e, sc, fr):
        r = self.comp(e.generators, lambda s: (self.hkey(self.ev(e.key, s, fr)), self.ev(e.value, s, fr)), sc, fr)
        if not isinstance(r, list):
            raise Unmodelled('symbolic dict comprehension')
        return dict(r)

    def comp(self, gens, body, sc, fr):
        def rec(i, s):
            if i == len(gens):
                return [body(s)]
            g = gens[i]
            it = self.ev(g.iter, s, fr)
            vals = self.iter_list(it)
            if vals is not None:
                out = []
                syms = []
                for v in vals:
                    s2 = Scope(s)
                    self.assign(g.target, v, s2, fr)
                    ok = True
                    for c in g.ifs:
                        b = self.truth(self.ev(c, s2, fr))
                        if b is False:
                            ok = False
                            break
                        if b is not True:
                            raise Unmodelled('symbolic comprehension filter')
                    if ok:
                        r = rec(i + 1, s2)
                        if isinstance(r, SymSeq):
                            syms.append(r)
                        else:
                            out += r
                if syms:
                    if out:
                        raise Unmodelled('mixed symbolic comprehension')
                    r = syms[0]
                    for q in syms[1:]:
                        r = concat_seq(r, q)
                    return r
                return out
            seq = self.as_seq(it)
            if g.ifs:
                raise Unmodelled('filter over symbolic sequence')
            v = fresh(seq.n)
            s2 = Scope(s)
            self.assign(g.target, seq.at(v), s2, fr)
            r = rec(i + 1, s2)
            if isinstance(r, SymSeq):
                n2 = r.n
                w = fresh(mul(seq.n, n2))
                val = vmapv(r.at(mod(w, n2)), lambda t: subst(t, {v: floordiv(w, n2)}))
                return SymSeq(mul(seq.n, n2), w, val)
            if len(r) != 1:
                raise Unmodelled('nested comprehension shape')
            return SymSeq(seq.n, v, r[0])

        return rec(0, sc)

    # -- calls ---------------------------------------------------------------------------------------------------------
    def e_Call(self, e, sc, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            self_ = None
            s = sc
            while s is not None and 'self' not in s.vars:
                s = s.parent
            self_ = s.vars['self'] if s else None
            cls = fr.get('cls')
            return Super(cls, self_)
        f = self.ev(e.func, sc, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, sc, fr)
                l = self.iter_list(v)
                if l is None:
                    args.append(StarArg(self.as_seq(v)))
                else:
                    args += l
            else:
                args.append(self.ev(a, sc, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, sc, fr)
                if not isinstance(d, dict):
                    raise Unmodelled('** of non-dict')
                for kk, vv in d.items():
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, sc, fr)
        self.setloc(e, fr)
        saved = self.loc
        r = self.call(f, args, kwargs)
        self.loc = saved
        tm.CUR_LOC[0] = saved
        return r

    def call(self, f, args, kwargs):
        self.stats['calls'] += 1
        if isinstance(f, Func):
            ov = self.overrides.get(f.qual)
            if ov is not None:
                return ov(self, args, kwargs)
            return self.call_func(f, args, kwargs)
        if isinstance(f, Native):
            return f.f(self, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.f, [f.obj] + list(args), kwargs)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.f, list(f.args) + list(args), kw)
        if isinstance(f, Opaque):
            return self.call_opaque(f, args, kwargs)
        if isinstance(f, Class):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, tuple) and len(f) == 2 and f[0] == 'staticmethod':
            return self.call(f[1], args, kwargs)
        if isinstance(f, Instance):
            c = f.cls.lookup('__call__')
            if c is not None:
                return self.call_instance(f, c, args, kwargs)
        if hasattr(f, '_call'):
            return f._call(self, args, kwargs)
        if f is None or isinstance(f, (int, Fr, str, Arr, list, tuple)):
            raise Definite(f'call of a non-function ({type(f).__name__})', self.loc)
        raise Unmodelled(f'call of {f!r}')

    def call_instance(self, o, c, args, kwargs):
        if o.cls.has_ext_base(('Module',)):
            from . import flaxlib
            return flaxlib.call_module(self, o, c, args, kwargs)
        return self.call(Bound(c, o), args, kwargs)

    def call_opaque(self, f, args, kwargs):
        nodes = []
        for a in args:
            nodes.append(self.to_nodes(a))
        kw = []
        for k in sorted(kwargs, key=str):
            kw.append((k, self.to_nodes(kwargs[k])))
        shapes = f.result(self, args, kwargs)
        head = f.name
        if kw:
            nodes = nodes + [('kw',) + tuple(kw)]
        nodes = tuple(nodes)

        def make(s, path=()):
            if isinstance(s, tuple) and len(s) == 2 and s[0] in ('f', 'i', 'b', 'k') and isinstance(s[1], tuple):
                kind, shape = s
                nm = head if not path else head + '.' + '.'.join(map(str, path))
                return of_node(app(nm, nodes, kind, shape))
            if isinstance(s, (tuple, list)):
                return tuple(make(x, path + (i,)) for i, x in enumerate(s))
            return s

        return make(shapes)

    def to_nodes(self, v):
        """Value structure -> nested tuples of nodes (for opaque application identity)."""
        if v is None or isinstance(v, (str, bool)):
            return ('py', repr(v))
        if isinstance(v, (int, Fr)):
            return const(v)
        if isinstance(v, Arr):
            return v.node()
        if isinstance(v, T):
            return v
        if isinstance(v, (tuple, list)):
            return tuple(self.to_nodes(x) for x in v)
        if isinstance(v, dict):
            return tuple((str(k), self.to_nodes(v[k])) for k in sorted(v, key=str))
        if isinstance(v, Opaque):
            return ('fn', v.name)
        if isinstance(v, SymSeq):
            return lift(v).node()
        if isinstance(v, Instance):
            return ('obj', v.cls.name) + tuple((k, self.to_nodes(x)) for k, x in sorted(v.attrs.items()))
        if isinstance(v, (Func, Partial, Bound, Native)):
            return ('fn', self.fn_sig(v))
        if isinstance(v, Ext):
            return ('ext', v.path)
        if isinstance(v, slice):
            return ('slice', self.to_nodes(v.start), self.to_nodes(v.stop), self.to_nodes(v.step))
        if isinstance(v, StarDims):
            return v.rest
        if hasattr(v, '_to_nodes'):
            return v._to_nodes(self)
        raise Unmodelled(f'cannot pass {type(v).__name__} to an opaque callable')

    def fn_sig(self, v):
        raise Unmodelled('function passed to an opaque callable')

    def call_func(self, f, args, kwargs):
        self.depth += 1
        if self.depth > 90:
            self.depth = 0
            raise Unmodelled('call depth')
        try:
            self.stats['functions'].add(f.qual)
            sc = Scope(f.scope)
            if isinstance(f, Func) and isinstance(f.node, ast.FunctionDef) and is_generator(f.node):
                raise Unmodelled('generator function')
            self.bind_args(f, args, kwargs, sc)
            fr = self.frame(f.module, f)
            fr['cls'] = f.attrs.get('__class__') or self.owner_class(f, sc)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, sc, fr)
            sig = self.exec_block(f.node.body, sc, fr)
            if sig is None:
                return None
            if isinstance(sig, Ret):
                return sig.v
            if isinstance(sig, PartialRet):
                return self.join(sig.cond, sig.v, None)
            raise Unmodelled('control flow')
        finally:
            self.depth -= 1

    def owner_class(self, f, sc):
        o = sc.vars.get('self')
        if isinstance(o, Instance):
            for c in o.cls.mro():
                if isinstance(c, Class):
                    for v in c.attrs.values():
                        if v is f or (isinstance(v, tuple) and len(v) == 2 and v[1] is f):
                            return c
        return None

    def bind_args(self, f, args, kwargs, sc):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        vals = {}
        extra = []
        for i, v in enumerate(args):
            if isinstance(v, StarArg):
                raise Unmodelled('symbolic *args')
            if i < len(pos):
                vals[pos[i]] = v
            else:
                extra.append(v)
        if extra and a.vararg is None:
            raise Definite(f'{f.name}() takes {len(pos)} positional arguments but {len(args)} were given', self.loc)
        kwnames = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in pos and k not in [x.arg for x in a.posonlyargs]:
                if k in vals:
                    raise Definite(f'{f.name}() got multiple values for argument {k}', self.loc)
                vals[k] = v
            elif k in kwnames:
                vals[k] = v
            else:
                rest[k] = v
        if rest and a.kwarg is None:
            if set(rest) == {KWSTAR}:
                raise Definite(f'{f.name}() does not accept the extra keyword arguments it is given', self.loc)
            raise Definite(f'{f.name}() got unexpected keyword arguments {sorted(rest)}', self.loc)
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in vals:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vals[p] = f.defaults[j]
                else:
                    raise Definite(f'{f.name}() missing argument {p}', self.loc)
        for p, d in zip(kwnames, f.kwdefaults):
            if p not in vals:
                if d is _NODEF:
                    raise Definite(f'{f.name}() missing keyword argument {p}', self.loc)
                vals[p] = d
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(extra)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = rest
        sc.vars.update(vals)

    def instantiate(self, c, args, kwargs):
        if c.has_ext_base(('NamedTuple',)):
            names = [f for f, _ in c.fields]
            vals = {}
            for n, v in zip(names, args):
                vals[n] = v
            if len(args) > len(names):
                raise Definite(f'{c.name}() too many arguments', self.loc)
            for k, v in kwargs.items():
                if k not in names or k in vals:
                    raise Definite(f'{c.name}() bad keyword {k}', self.loc)
                vals[k] = v
            for n in names:
                if n not in vals:
                    if n in c.attrs:
                        vals[n] = c.attrs[n]
                    else:
                        raise Definite(f'{c.name}() missing {n}', self.loc)
            return NT(c, [vals[n] for n in names])
        o = Instance(c, {})
        init = c.lookup('__init__')
        if init is not None:
            self.call(Bound(init, o), args, kwargs)
            return o
        if c.has_ext_base(('Module',)) or 'dataclass' in getattr(c, 'decos', []):
            fields = []
            for k in reversed(c.mro()):
                if isinstance(k, Class):
                    for n, has in k.fields:
                        if n not in [x for x, _ in fields]:
                            fields.append((n, k))
            names = [n for n, _ in fields]
            vals = dict(zip(names, args))
            if len(args) > len(names):
                raise Definite(f'{c.name}() too many arguments', self.loc)
            if c.has_ext_base(('Module',)):
                from . import flaxlib
                kwargs = dict(kwargs)
                flaxlib.on_create(self, o, kwargs)
            for k, v in kwargs.items():
                if k not in names:
                    raise Definite(f'{c.name}() unexpected field {k}', self.loc)
                vals[k] = v
            for n in names:
                if n not in vals:
                    d = c.lookup(n)
                    has = any(n in kk.attrs for kk in c.mro() if isinstance(kk, Class))
                    if not has:
                        raise Definite(f'{c.name}() missing field {n}', self.loc)
                    vals[n] = d
            o.attrs.update(vals)
            return o
        if args or kwargs:
            if any(isinstance(b, Ext) for b in c.mro()):
                o.attrs['args'] = tuple(args)
                return o
            raise Definite(f'{c.name}() takes no arguments', self.loc)
        return o

    def call_ext(self, f, args, kwargs):
        p = self.canon(f.path)
        m = self.lib.get(p)
        if m is not None:
            return m(self, args, kwargs)
        if p.startswith('nn.initializers.'):
            return Native(p, lambda it, a, k: None)
        if self.unknown_ext is not None:
            return self.unknown_ext(self, p, args, kwargs)
        raise Unmodelled(f'library function {f.path}')


class Anchor(Exception):
    pass


class Super:
    def __init__(self, cls, inst):
        self.cls, self.inst = cls, inst


class StarArg:
    def __init__(self, seq):
        self.seq = seq


class GrowList(list):
    def __init__(self, base):
        super().__init__(base)
        self.new = []


_NODEF = object()
_MISSING = object()
LIBCONST = {'numpy.inf', 'jax.numpy.inf', 'math.inf', 'math.pi', 'numpy.pi', 'jax.numpy.pi'}

BUILTINS = {'len', 'range', 'zip', 'enumerate', 'map', 'filter', 'list', 'tuple', 'dict', 'set', 'int', 'float', 'bool',
            'str', 'abs', 'min', 'max', 'sum', 'sorted', 'reversed', 'isinstance', 'issubclass', 'getattr', 'hasattr',
            'setattr', 'print', 'any', 'all', 'repr', 'type', 'super', 'pow', 'round', 'divmod', 'callable', 'slice',
            'property', 'staticmethod', 'classmethod', 'object', 'id', 'hash', 'next', 'iter', 'open', 'format',
            'Exception', 'ValueError', 'TypeError', 'NotImplementedError', 'RuntimeError', 'KeyError', 'IndexError',
            'AssertionError', 'complex', 'bytes', 'frozenset', 'vars', 'NotImplemented', 'Ellipsis', 'input',
            'StopIteration', 'ZeroDivisionError', 'AttributeError', 'exit', 'quit', 'chr', 'ord', 'ArithmeticError',
            'FileNotFoundError', 'OSError', 'Warning', 'UserWarning', 'DeprecationWarning', '__import__', 'locals',
            'globals', 'dir', 'memoryview', 'bytearray', 'breakpoint'}


def _rebuild_parts(parts, ls):
    out = []
    i = 0
    for fl, rb in parts:
        out.append(rb(ls[i:i + len(fl)]))
        i += len(fl)
    return out


def simp_bool(a):
    if isinstance(a, Arr) and a.ndim == 0:
        c = cval(a.body)
        if c is not None and host_only(a.body):
            return bool(c)
    return a


def host_only(t):
    """Does the node involve only host (non-array) values?"""
    ok = True
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ('app', 'rand', 'orbat', 'elem', 'cvar', 'sum', 'red', 'arrfn', 'mfn', 'scat'):
            return False
        if x.op == 'var':
            p = tm.PROPS.get(x, {})
            if x.shape:
                return False
            if 'min' in p or 'size' in p or p.get('host'):
                continue
            return False
        st.extend(x.args)
    return ok


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def assigned_names(stmts):
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            if not isinstance(n, ast.Lambda):
                out.add(n.name)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    out.add(t.value.id)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript) and isinstance(n.target.value, ast.Name):
            out.add(n.target.value.id)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in stmts:
        visit(s)
    return out


def appended_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append',) \
                    and isinstance(n.func.value, ast.Name):
                out.add(n.func.value.id)
    return out


def is_generator(node):
    for s in node.body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
    return False


def list_to_seq(l):
    n = const(len(l))
    v = fresh(n)
    vals = list(l)
    r = vals[-1]

    def jn(c, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(jn(c, x, y) for x, y in zip(a, b))
        return ew(lambda p, q: ite(c, p, q), a, b)

    for k in range(len(vals) - 2, -1, -1):
        r = jn(lt(v, const(k + 1)), vals[k], r)
    return SymSeq(n, v, r)


def concat_seq(a, b):
    n = add(a.n, b.n)
    v = fresh(n)
    c = lt(v, a.n)
    x, y = a.at(v), b.at(sub(v, a.n))

    def jn(p, q):
        if isinstance(p, (tuple, list)) and isinstance(q, (tuple, list)):
            return tuple(jn(s, t) for s, t in zip(p, q))
        return ew(lambda s, t: ite(c, s, t), p, q)

    return SymSeq(n, v, jn(x, y))


def fold_updates(t, comps, orb, k):
    """Recognise a component's updated value inside an emitted expression and name it value-at-(k+1)."""
    for c in comps:
        if c.closed is not None and c.ph in t.fs:
            t = subst_cv(t, c.ph, c.closed(k))
    for c in comps:
        if c.closed is not None:
            continue
        u = c.upd
        if u.op in ('var', 'bvar', 'cvar') or is_ph(u, c.ph):
            continue
        if u is t or ar._contains(t, u):
            nxt = orb.at(c, add(k, ONE))
            t = replace_node(t, u, nxt)
    return t


def cat_str(parts):
    out = []
    for p in parts:
        ps = p.parts if isinstance(p, SymStr) else [p]
        for q in ps:
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q == '':
                continue
            else:
                out.append(q)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SymStr(out)


def fmt(x, spec, conv):
    if isinstance(x, (str, SymStr)) and not spec:
        return x
    if isinstance(x, bool):
        return str(x)
    if isinstance(x, int) and not spec:
        return str(x)
    if isinstance(x, int):
        return format(x, spec)
    if isinstance(x, Fr):
        return format(float(x), spec)
    if isinstance(x, Arr) and x.ndim == 0:
        c = ival(x.body)
        if c is not None:
            return format(c, spec)
        return SymStr([x.body if not spec else ('fmt', x.body, spec)])
    return SymStr([x])


def symstr_eq(a, b):
    pa = a.parts if isinstance(a, SymStr) else [a]
    pb = b.parts if isinstance(b, SymStr) else [b]
    # compare leading literals
    x, y = pa[0], pb[0]
    if isinstance(x, str) and isinstance(y, str):
        m = min(len(x), len(y))
        if x[:m] != y[:m]:
            return False
    if len(pa) == 1 or len(pb) == 1:
        # literal versus pattern: cannot match when the literal lacks the fixed prefix/suffix
        lit, pat = (x, pb) if len(pa) == 1 else (y, pa)
        if isinstance(pat[0], str) and not lit.startswith(pat[0]):
            return False
        if isinstance(pat[-1], str) and not lit.endswith(pat[-1]):
            return False
        if isinstance(pat[0], str) and len(pat) > 1 and lit == pat[0]:
            return False
    return None


def isinstance_(it, v, c):
    if isinstance(c, tuple):
        acc = False
        for x in c:
            r = it.truth(isinstance_(it, v, x))
            if r is True:
                return True
        return acc
    if isinstance(c, Class):
        if isinstance(v, Instance):
            return c in v.cls.mro()
        if isinstance(v, NT):
            return v.k is c
        return False
    if isinstance(c, Ext):
        p = it.canon(c.path)
        m = {'int': lambda: isinstance(v, int) and not isinstance(v, bool) or (isinstance(v, Arr) and host_only(v.body) and v.kind == 'i'),
             'float': lambda: isinstance(v, Fr), 'str': lambda: isinstance(v, (str, SymStr)),
             'list': lambda: isinstance(v, list) or (isinstance(v, SymSeq)), 'tuple': lambda: isinstance(v, tuple),
             'dict': lambda: isinstance(v, dict), 'bool': lambda: isinstance(v, bool)}
        if p in m:
            return m[p]()
        if p in ('jax.Array', 'np.ndarray', 'jax.core.Tracer'):
            return isinstance(v, Arr)
        if p.split('.')[-1] == 'Number':
            return isinstance(v, (int, Fr))
    raise Unmodelled('isinstance')
