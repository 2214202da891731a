"""Abstract runs of the experiment scripts: command line, library calls, files read and written."""
import ast
import os
from .terms import *
from .arr import *
from . import interp as ip
from .interp import Native, Opaque, Func, Partial, Bound, Instance, SymStr, Anchor, Module, Scope
from . import summ as sm


class Parser:
    """argparse.ArgumentParser: the declared flags."""

    def __init__(self, run):
        self.run = run
        self.flags = {}

    def _attr(self, it, a):
        if a == 'add_argument':
            return Native('add_argument', self.add)
        if a in ('parse_args', 'parse_known_args'):
            return Native(a, self.parse if a == 'parse_args' else lambda it, x, k: (self.parse(it, x, k), []))
        if a in ('add_argument_group', 'add_mutually_exclusive_group'):
            return Native(a, lambda it, x, k: self)
        if a == 'set_defaults':
            return Native(a, self.defaults)
        raise Unmodelled(f'ArgumentParser.{a}')

    def defaults(self, it, args, kwargs):
        for k, v in kwargs.items():
            if k in self.flags:
                self.flags[k]['default'] = v

    def add(self, it, args, kwargs):
        names = [a for a in args if isinstance(a, str)]
        long = [n for n in names if n.startswith('--')] or [n for n in names if n.startswith('-')] or names
        dest = kwargs.get('dest') or long[0].lstrip('-').replace('-', '_')
        act = kwargs.get('action')
        d = {'names': names, 'type': tyname(kwargs.get('type')), 'action': act, 'choices': kwargs.get('choices'),
             'nargs': kwargs.get('nargs'), 'required': kwargs.get('required') is True,
             'default': kwargs.get('default', {'store_true': False, 'store_false': True}.get(act))}
        self.flags[dest] = d
        return None

    def parse(self, it, args, kwargs):
        vals = {k: conv(d) for k, d in self.flags.items()}
        for k, v in self.run.args.items():
            if k not in self.flags:
                raise Definite(f'{self.run.rel} has no command-line flag for {k!r}', it.loc)
            f = self.flags[k]
            if isinstance(v, bool) != (f['action'] in ('store_true', 'store_false') or f['type'] == 'bool'):
                raise Definite(f'flag {k!r} of {self.run.rel} is declared with another type', it.loc)
            if isinstance(v, Arr) and f['type'] not in (('int', 'float') if v.kind == 'i' else ('float',)):
                raise Definite(f'flag {k!r} of {self.run.rel} is declared with type {f["type"]}', it.loc)
            if isinstance(f['choices'], (list, tuple)) and isinstance(v, str) and v not in f['choices']:
                raise Definite(f'{self.run.rel} does not accept --{k} {v}', it.loc)
            vals[k] = v
        self.run.flags = self.flags
        return Space(vals)


class Space:
    def __init__(self, vals):
        self.vals = vals

    def _attr(self, it, a):
        if a in self.vals:
            return self.vals[a]
        raise Definite(f'the command line has no attribute {a!r}', it.loc)


def tyname(t):
    return getattr(t, 'name', getattr(t, 'path', None)) if t is not None else 'str'


def conv(d):
    v = d['default']
    if isinstance(v, str) and d['type'] in ('int', 'float'):
        return int(v) if d['type'] == 'int' else ip.float_lit(float(v))
    return v


class Blob:
    """A plotting object: everything about it is accepted and nothing comes of it."""

    def _attr(self, it, a):
        return self

    def _call(self, it, args, kwargs):
        return self

    def _getitem(self, it, k):
        return self

    def _iter_list(self, it, want=None):
        if want is None:
            raise Unmodelled('iteration over plotting objects')
        return [self] * want


OPTAX = {'cosine_decay_schedule': (('init_value', None), ('decay_steps', None), ('alpha', 0), ('exponent', 1)),
         'exponential_decay': (('init_value', None), ('transition_steps', None), ('decay_rate', None), ('transition_begin', 0),
                               ('staircase', False), ('end_value', None)),
         'constant_schedule': (('value', None),), 'clip_by_global_norm': (('max_norm', None),),
         'adam': (('learning_rate', None), ('b1', ip.float_lit(.9)), ('b2', ip.float_lit(.999)), ('eps', ip.float_lit(1e-8)),
                  ('eps_root', 0), ('mu_dtype', None))}


class Optax:
    """A schedule, gradient transformation or optimiser of optax, known by how it was made."""

    def __init__(self, sig):
        self.sig = sig

    def _to_nodes(self, it):
        return self.sig

    def _attr(self, it, a):
        if a == 'init':
            return Native('optax.init', lambda it, x, k: of_node(
                app('optax.init', (self.sig, value_sig(it, x[0])), 'f', (dim('$nstate'),))))
        if a == 'update':
            def up(it, x, k):
                g, st, p = [*x, *(k[n] for n in ('updates', 'state', 'params') if n in k), None][:3]
                sig = (self.sig,) + tuple(value_sig(it, y) for y in (g, st, p))
                return (of_node(app('optax.updates', sig, 'f', tuple(lift(g).shape))),
                        of_node(app('optax.state', sig, 'f', tuple(lift(st).shape))))
            return Native('optax.update', up)
        raise Unmodelled(f'attribute {a} of an optimiser')


def optax_make(name):
    def make(it, args, kwargs):
        if name == 'chain':
            return Optax(('optax', name) + tuple(value_sig(it, a) for a in args))
        spec = OPTAX[name]
        if len(args) > len(spec) or set(kwargs) - {n for n, _ in spec}:
            raise Unmodelled(f'arguments of optax.{name}')
        vals = dict(spec, **dict(zip((n for n, _ in spec), args)), **kwargs)
        return Optax(('optax', name) + tuple(value_sig(it, vals[n]) for n, _ in spec))
    return make


class Call:
    def __init__(self, qual, vals, rest, loc):
        self.qual, self.vals, self.rest, self.loc = qual, vals, rest, loc


class Run:
    """One abstract execution of a script under given flags; library entry points in stubs are recorded."""

    def __init__(self, cx, rel, args, stubs=(), files=None):
        self.cx, self.rel, self.args = cx, rel, args
        self.stubs = dict(stubs)
        self.files = files or (lambda run, it, name, args, kwargs: None)
        self.saves, self.calls, self.loads = [], [], []
        self.env = None

    def ext(self, it, p, args, kwargs):
        head = p.split('.')[0]
        if head in ('plt', 'matplotlib', 'tikzplotlib'):
            return Blob()
        if head in ('time', 'sys', 'warnings', 'logging', 'tqdm'):
            return None
        raise Unmodelled(f'library function {p}')

    def __enter__(self):
        it = self.cx.it
        it.effects, it.conds = self.saves, []
        self.old = (it.unknown_ext, dict(it.overrides), dict(it.lib))
        it.unknown_ext = self.ext
        it.lib = dict(it.lib)
        it.lib['argparse.ArgumentParser'] = lambda it, a, k: Parser(self)
        for n in ('np.savez', 'np.savez_compressed'):
            it.lib[n] = lambda it, a, k: self.save(it, a[0], dict(k, **{f'arr_{i}': v for i, v in enumerate(a[1:])}))
        for n in (*OPTAX, 'chain'):
            it.lib['optax.' + n] = optax_make(n)
        it.lib['np.save'] = lambda it, a, k: self.save(it, a[0], {'': a[1]})
        for n in ('np.load', 'jnp.load', 'jax.numpy.load', 'numpy.load'):
            it.lib[n] = lambda it, a, k: self.load(it, a[0])
        for q, (out, names, *more) in self.stubs.items():
            it.overrides[self.qual(q)] = self.recorder(q, out, names.split(), more[0].split() if more else (),
                                                       more[1] if more[1:] else None)
        return self

    def __exit__(self, *e):
        it = self.cx.it
        it.unknown_ext, it.overrides, it.lib = self.old
        return False

    def qual(self, q):
        return self.cx.get(q).qual

    def save(self, it, path, vals):
        self.saves.append(ip.Effect(path, vals, it.loc, it.conds))

    def load(self, it, path):
        self.loads.append((path, it.loc))
        r = self.files(self, it, path)
        if r is None:
            raise Unmodelled('file input')
        return r

    def recorder(self, q, out, names, free=(), probe=None):
        """free: arguments the result does not depend on; probe: arguments at which callables enter the result."""
        f = self.cx.get(q)
        own = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        canon = dict(zip(own, names))

        def ov(it, args, kwargs):
            sc = Scope(None)
            it.bind_args(f, args, kwargs, sc)
            vals = dict(sc.vars)
            a = f.node.args
            rest = vals.pop(a.kwarg.arg, {}) if a.kwarg is not None else {}
            vals = {canon.get(k, k): v for k, v in vals.items()}
            c = Call(q, {k: v for k, v in vals.items() if is_fn(v)}, rest, it.loc)
            if not any(same_call(c, d) for d in self.calls):
                self.calls.append(c)
            at = probe(vals) if probe else {}

            def sig(k, v):
                if not is_fn(v):
                    return value_sig(it, v)
                return ('fn', k) + ((value_sig(it, it.call(v, list(at[k]), {})),) if k in at else ())
            nodes = [sig(k, v) for k, v in sorted(vals.items()) if k not in free]
            # a single extra keyword may have any name
            nodes += [(k if len(rest) > 1 else '', ('fn', k) if is_fn(v) else value_sig(it, v)) for k, v in sorted(rest.items())]
            nodes = tuple(nodes)
            shapes = out(it, vals)

            def make_fn(it, s, path, a, k):
                sh = s(*a, *k.values())
                sig = nodes + tuple(value_sig(it, x) for x in (*a, *k.values()))
                name = 'lib:' + q.rsplit('.', 1)[1] + path
                if sh[0] == 't':
                    return tuple(of_node(app(f'{name}.{i}', sig, h[0], tuple(h[1]))) for i, h in enumerate(sh[1:]))
                return of_node(app(name, sig, sh[0], tuple(sh[1])))

            def make(s, path=''):
                if isinstance(s, tuple) and len(s) == 2 and isinstance(s[0], str) and s[0] in 'fibk':
                    return of_node(app('lib:' + q.rsplit('.', 1)[1] + path, nodes, s[0], tuple(s[1])))
                if isinstance(s, tuple) and s and s[0] == 'nt':
                    r = ip.NT(s[1], [make(x, f'{path}.{i}') for i, x in enumerate(s[2])])
                    for done in s[3:]:
                        done(it, r)
                    return r
                if callable(s):
                    return Native(q + path, lambda it, a, k: make_fn(it, s, path, a, k))
                if isinstance(s, dict):
                    return Fields({k: make(x, f'{path}.{k}') for k, x in s.items()})
                return tuple(make(x, f'{path}.{i}') for i, x in enumerate(s))

            return make(shapes)

        return ov

    def go(self):
        it = self.cx.it
        path = os.path.join(it.repo, self.rel)
        if not os.path.isfile(path):
            raise Anchor(f'script {self.rel} not found')
        it.stats['files'].add(self.rel)
        tree = ast.parse(open(path, encoding='utf-8').read(), path)
        sc = Scope()
        mod = Module('script:' + self.rel, sc)
        mod.path, mod.ispkg = path, False
        sc.vars.update(__name__='__main__', __file__=path)
        self.env = sc
        it.modules['script:' + self.rel] = mod
        it.exec_block(tree.body, sc, it.frame(mod))
        return self


class Fields:
    """A named result."""

    def __init__(self, vals):
        self.vals = vals

    def _attr(self, it, a):
        if a in self.vals:
            return self.vals[a]
        raise Definite(f'the result has no field {a!r}', it.loc)

    def _vmapv(self, f):
        return Fields({k: vmapv(v, f) for k, v in self.vals.items()})

    def _flatten(self, it):
        ls, make = it.flatten(self.vals)
        return ls, lambda r: Fields(make(r))


def is_fn(v):
    return isinstance(v, (Func, Partial, Bound, Native, Opaque))


def same_call(c, d):
    return c.qual == d.qual and c.vals.keys() == d.vals.keys() and all(
        c.vals[k] is d.vals[k] or isinstance(c.vals[k], Bound) and isinstance(d.vals[k], Bound)
        and c.vals[k].f is d.vals[k].f and c.vals[k].obj is d.vals[k].obj for k in c.vals)


def value_sig(it, v):
    if isinstance(v, Instance):
        return ('obj', v.cls.name) + tuple((k, value_sig(it, x)) for k, x in sorted(v.attrs.items()) if not is_fn(x))
    return it.to_nodes(v)
