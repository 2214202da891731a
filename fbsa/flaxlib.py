"""flax.linen modules: submodule naming, parameters as opaque leaves of a variables object, layers as per-sample maps."""
from fractions import Fraction as Fr
from .terms import *
from . import terms as tm
from .arr import *
from . import arr as ar
from . import interp as I
from .interp import Instance, Native, Ext, Bound, Class

LAYERS = {}


class Frame:
    """The scope of one bound module: where its children get their names and its parameters their values."""

    def __init__(self, path, store):
        self.path, self.store = path, store
        self.counts, self.names = {}, set()

    def child(self, it, cls, name):
        if name is None:
            n = self.counts.get(cls, 0)
            self.counts[cls] = n + 1
            name = f'{cls}_{n}'
        if not isinstance(name, str):
            raise Unmodelled('symbolic module name')
        if name in self.names:
            raise Definite(f'two submodules named {name}', it.loc)
        self.names.add(name)
        return Frame(self.path + (name,), self.store)


class Vars:
    """A variables object (flax "dict of params"): identified by a node."""

    def __init__(self, node, path=None):
        self.node, self.path = node, path

    def _to_nodes(self, it):
        return self.node if self.path is None else ('sub', self.node) + self.path

    def leaf(self, it, path, shape):
        return of_node(mk('arrfn', ('param', self.node, '/'.join((self.path or ()) + path)) + tuple(shape), 'f', shape=tuple(shape)))


class Tree:
    """Variables given as an explicit nested dict."""

    def __init__(self, d):
        self.d = d

    def leaf(self, it, path, shape):
        x = self.d.get('params') if isinstance(self.d, dict) else None
        for p in path:
            if not isinstance(x, dict) or p not in x:
                raise Definite(f'no parameter {"/".join(path)} in the variables', it.loc)
            x = x[p]
        x = lift(x)
        if len(x.shape) != len(shape) or any(known_eq(a, b) is False for a, b in zip(x.shape, shape)):
            raise Definite(f'parameter {"/".join(path)} has the shape {tuple(pp(d, 3) for d in x.shape)}, the layer needs {tuple(pp(d, 3) for d in shape)}', it.loc)
        return x


def store_of(v):
    if isinstance(v, Vars):
        return v
    if isinstance(v, dict):
        return Tree(v)
    if hasattr(v, '_vars'):
        return v._vars()
    raise Unmodelled('variables object')


def stack(it):
    if not hasattr(it, 'nn'):
        it.nn = []
    return it.nn


def fresh_frame(it, cls, kwargs):
    """Scope for a module object at its construction (None: unbound)."""
    name = kwargs.pop('name', None)
    has_parent = 'parent' in kwargs
    parent = kwargs.pop('parent', None)
    st = stack(it)
    if has_parent:
        if parent is not None:
            raise Unmodelled('explicit module parent')
        return None
    if st:
        return st[-1].child(it, cls, name)
    return None


def run(it, frame, f):
    """Evaluate f inside the scope of a module."""
    frame.counts, frame.names = {}, set()
    st = stack(it)
    st.append(frame)
    try:
        return f()
    finally:
        st.pop()


class Layer:
    """A library layer: its configuration and scope."""

    def __init__(self, kind, cfg, frame):
        self.kind, self.cfg, self.frame = kind, cfg, frame

    def _call(self, it, args, kwargs):
        if self.frame is None:
            raise Definite(f'call of the unbound module {self.kind}', it.loc)
        return LAYERS[self.kind][1](it, self.cfg, self.frame, args, kwargs)

    def _attr(self, it, a):
        if a == 'apply':
            def ap(it2, args, kw):
                fr = Frame((), store_of(args[0]))
                return LAYERS[self.kind][1](it2, self.cfg, fr, list(args[1:]), kw)
            return Native('apply', ap)
        if a == 'init':
            def init(it2, args, kw):
                rec = InitStore(it2.to_nodes(args[0]), self.kind)
                LAYERS[self.kind][1](it2, self.cfg, Frame((), rec), list(args[1:]), kw)
                return {'params': rec.tree}
            return Native('init', init)
        if a in self.cfg:
            return self.cfg[a]
        raise Unmodelled(f'layer attribute {a}')

    def _to_nodes(self, it):
        return ('layer', self.kind)


class InitStore:
    """Collects the parameters a module asks for; each is its initialiser's value."""

    def __init__(self, keynode, name):
        self.key, self.name, self.tree = keynode, name, {}

    def leaf(self, it, path, shape, init=None):
        d = self.tree
        for p in path[:-1]:
            d = d.setdefault(p, {})
        d[path[-1]] = of_node(mk('arrfn', ('nninit', self.key, self.name, '/'.join(path)) + tuple(shape), 'f', shape=tuple(shape)))
        return d[path[-1]]


def get_param(frame, it, name, shape):
    return frame.store.leaf(it, frame.path + (name,), shape)


# -- user modules ------------------------------------------------------------------------------------------------------
def on_create(it, o, kwargs_name_parent):
    o.nnframe = fresh_frame(it, o.cls.name, kwargs_name_parent)
    o.nnsetup = False


def call_module(it, o, c, args, kwargs):
    fr = getattr(o, 'nnframe', None)
    if fr is None:
        fr = Frame((), NoStore())
    return run(it, fr, lambda: body(it, o, c, args, kwargs))


def body(it, o, c, args, kwargs):
    s = o.cls.lookup('setup')
    if s is not None and not o.nnsetup:
        o.nnsetup = True
        st = stack(it)
        before = set(o.attrs)
        it.call(Bound(s, o), [], {})
        for k, v in o.attrs.items():
            if k not in before and isinstance(v, (Layer, Instance)):
                raise Unmodelled('setup-style module')
    return it.call(Bound(c, o), args, kwargs)


class NoStore:
    def leaf(self, it, path, shape):
        raise Definite('a module with parameters is called outside apply', it.loc)


def attr(it, o, a):
    """Attributes a flax module instance inherits."""
    if not o.cls.has_ext_base(('Module',)):
        return None
    c = o.cls.lookup('__call__')
    if a == 'apply':
        def ap(it2, args, kw):
            kw = {k: v for k, v in kw.items() if k not in ('mutable', 'rngs', 'method')}
            st, keep = stack(it2), None
            fr = Frame((), store_of(args[0]))
            return run(it2, fr, lambda: it2.call(Bound(c, o), list(args[1:]), kw))
        return Native('apply', ap)
    if a in ('init', 'init_with_output'):
        def init(it2, args, kw):
            rec = InitStore(it2.to_nodes(args[0]), o.cls.name)
            out = run(it2, Frame((), rec), lambda: it2.call(Bound(c, o), list(args[1:]), kw))
            v = {'params': rec.tree}
            return v if a == 'init' else (out, v)
        return Native('init', init)
    if a == 'param':
        def param(it2, args, kw):
            name, init = args[0], args[1]
            fr = getattr(o, 'nnframe', None) or (stack(it2)[-1] if stack(it2) else None)
            if fr is None:
                raise Definite('parameter of an unbound module', it2.loc)
            key = scalar(mk('var', ('$initkey', 0), 'k', shape=()))
            v = it2.call(init, [key] + list(args[2:]), kw)
            if v is None:
                raise Unmodelled('parameter initialiser of unknown shape')
            return get_param(fr, it2, name, lift(v).shape)
        return Native('param', param)
    if a in ('variable', 'make_rng', 'sow', 'perturb'):
        raise Unmodelled(f'flax module method {a}')
    if a == 'name':
        return o.attrs.get('__name')
    return None


# -- layers ------------------------------------------------------------------------------------------------------------
def layer(name, fields, pos):
    def deco(f):
        LAYERS[name] = (fields, f)

        def make(it, args, kwargs):
            kwargs = dict(kwargs)
            fr = fresh_frame(it, name, kwargs)
            cfg = dict(fields)
            for k, v in zip(pos, args):
                cfg[k] = v
            for k, v in kwargs.items():
                if k not in fields:
                    raise Definite(f'{name}() has no field {k}', it.loc)
                if k in pos[:len(args)]:
                    raise Definite(f'{name}() field {k} given twice', it.loc)
                cfg[k] = v
            for k, v in cfg.items():
                if v is REQ:
                    raise Definite(f'{name}() misses the field {k}', it.loc)
            return Layer(name, cfg, fr)

        from . import lib
        lib.LIB['nn.' + name] = make
        return f
    return deco


REQ = object()
_COMMON = {'dtype': None, 'param_dtype': None, 'precision': None, 'kernel_init': None, 'bias_init': None}


def flagc(v, what):
    if isinstance(v, bool) or v is None:
        return bool(v)
    raise Unmodelled(f'symbolic {what}')


@layer('Dense', {'features': REQ, 'use_bias': True, 'dot_general': None, **_COMMON}, ['features', 'use_bias'])
def dense(it, cfg, fr, args, kwargs):
    x = lift(args[0])
    if x.ndim < 1:
        raise Definite('Dense of a scalar', it.loc)
    C, F = x.shape[-1], as_dim(cfg['features'])
    K = get_param(fr, it, 'kernel', (C, F))
    ps = (K.node(),)
    if flagc(cfg['use_bias'], 'use_bias'):
        ps += (get_param(fr, it, 'bias', (F,)).node(),)
    return on_tail(x, 1, lambda n: app('nn.dense', (n,) + ps, 'f', (F,)))


def on_tail(x, k, f):
    """f on the array of the trailing k axes, for every index of the leading ones."""
    lead = x.ndim - k
    vs = tuple(fresh(s) for s in x.shape)
    row = Arr(x.shape[lead:], vs[lead:], x.at(vs))
    y = of_node(f(tm.share(row.node(), vs[:lead]) if row.ndim else row.body))
    ws = tuple(fresh(s) for s in y.shape)
    return Arr(x.shape[:lead] + y.shape, vs[:lead] + ws, y.at(ws))


def pair(it, v, n, default):
    if v is None:
        return (default,) * n
    if isinstance(v, (tuple, list)):
        if len(v) != n:
            raise Definite('window of the wrong rank', it.loc)
        return tuple(as_dim(x) for x in v)
    return (as_dim(v),) * n


@layer('Conv', {'features': REQ, 'kernel_size': REQ, 'strides': 1, 'padding': 'SAME', 'input_dilation': 1,
                'kernel_dilation': 1, 'feature_group_count': 1, 'use_bias': True, 'mask': None,
                'conv_general_dilated': None, **_COMMON},
       ['features', 'kernel_size', 'strides', 'padding'])
def conv(it, cfg, fr, args, kwargs):
    x = lift(args[0])
    ks = cfg['kernel_size']
    if not isinstance(ks, (tuple, list)):
        raise Definite('Conv: kernel_size must be a tuple or list', it.loc)
    n = len(ks)
    ks = tuple(as_dim(k) for k in ks)
    if x.ndim < n + 1:
        raise Definite(f'Conv of rank {n} applied to an array of rank {x.ndim}', it.loc)
    st = pair(it, cfg['strides'], n, ONE)
    for f in ('input_dilation', 'kernel_dilation', 'feature_group_count'):
        if any(ival(q) != 1 for q in pair(it, cfg[f], n if f != 'feature_group_count' else 1, ONE)):
            raise Unmodelled('dilated or grouped convolution')
    if cfg['mask'] is not None:
        raise Unmodelled('masked convolution')
    C, F = x.shape[-1], as_dim(cfg['features'])
    pad = cfg['padding']
    sp = x.shape[-n - 1:-1]
    if isinstance(pad, str):
        if pad.upper() == 'SAME':
            out = tuple(floordiv(add(s, sub(t, ONE)), t) for s, t in zip(sp, st))
        elif pad.upper() == 'VALID':
            out = tuple(add(floordiv(sub(s, k), t), ONE) for s, t, k in zip(sp, st, ks))
        else:
            raise Unmodelled(f'padding {pad}')
        pn = ('pad', pad.upper())
    else:
        if isinstance(pad, (tuple, list)):
            pp = []
            for p in pad:
                a, b = p if isinstance(p, (tuple, list)) else (p, p)
                pp.append((as_dim(a), as_dim(b)))
            if len(pp) != n:
                raise Definite('Conv: padding of the wrong rank', it.loc)
        else:
            pp = [(as_dim(pad), as_dim(pad))] * n
        out = tuple(add(floordiv(sub(add(s, a, b), k), t), ONE) for s, (a, b), k, t in zip(sp, pp, ks, st))
        # SAME padding of unit-stride odd windows is (k - 1) / 2
        if all(ival(t) == 1 for t in st) and all(ival(a) is not None and ival(a) == ival(b) and ival(k) == 2 * ival(a) + 1
                                                 for (a, b), k in zip(pp, ks)):
            pn = ('pad', 'SAME')
        else:
            pn = ('pad',) + tuple(pp)
    K = get_param(fr, it, 'kernel', ks + (C, F))
    ps = (K.node(),)
    if flagc(cfg['use_bias'], 'use_bias'):
        ps += (get_param(fr, it, 'bias', (F,)).node(),)
    if x.ndim == n + 1:
        pass
    return on_tail(x, n + 1, lambda m: app('nn.conv', (m, ('st',) + st, pn) + ps, 'f', out + (F,)))


def _affine(it, cfg, fr, C):
    ps = ()
    if flagc(cfg['use_scale'], 'use_scale'):
        ps += (('scale', get_param(fr, it, 'scale', (C,)).node()),)
    if flagc(cfg.get('use_bias', False), 'use_bias'):
        ps += (('bias', get_param(fr, it, 'bias', (C,)).node()),)
    return ps


def num(v):
    return lift(v).body


_NORM = {'epsilon': Fr(1, 10 ** 6), 'dtype': None, 'param_dtype': None, 'use_scale': True, 'bias_init': None,
         'scale_init': None, 'axis_name': None, 'axis_index_groups': None, 'use_fast_variance': True}


def plain(cfg):
    if cfg.get('axis_name') is not None or cfg.get('axis_index_groups') is not None:
        raise Unmodelled('normalisation across devices')


@layer('GroupNorm', {'num_groups': 32, 'group_size': None, 'use_bias': True, 'reduction_axes': None, **_NORM},
       ['num_groups', 'group_size', 'epsilon'])
def groupnorm(it, cfg, fr, args, kwargs):
    plain(cfg)
    x = lift(args[0])
    C = x.shape[-1]
    if cfg['group_size'] is not None:
        if cfg['num_groups'] is not None:
            raise Definite('GroupNorm: both num_groups and group_size', it.loc)
        g = as_dim(cfg['group_size'])
        ng = div(C, g)
    else:
        if cfg['num_groups'] is None:
            raise Definite('GroupNorm: neither num_groups nor group_size', it.loc)
        ng = g = as_dim(cfg['num_groups'])
    r = tm.mod(C, g)
    if r is not ZERO:
        if known_eq(r, ZERO) is False:
            raise Definite('GroupNorm: the groups do not divide the channels', it.loc)
        raise Unmodelled('GroupNorm: do the groups divide the channels?')
    ps = _affine(it, cfg, fr, C)
    lead = 1
    if cfg['reduction_axes'] is not None:
        ax = sorted(norm_axis(a, x.ndim) for a in cfg['reduction_axes'])
        if ax != list(range(x.ndim - len(ax), x.ndim)):
            raise Unmodelled('GroupNorm: reduction axes')
        lead = x.ndim - len(ax)
    if x.ndim < 2:
        raise Unmodelled('GroupNorm of a vector')
    return on_tail(x, x.ndim - lead, lambda n: app('nn.groupnorm', (n, ng, num(cfg['epsilon'])) + ps, 'f', n.shape))


def _last(it, name, cfg, fr, args, bias):
    plain(cfg)
    x = lift(args[0])
    ps = _affine(it, cfg if bias else {**cfg, 'use_bias': False}, fr, x.shape[-1])
    if cfg['feature_axes'] not in (-1,) or cfg['reduction_axes'] not in (-1,):
        ax = cfg['reduction_axes']
        ax = sorted(norm_axis(a, x.ndim) for a in (ax if isinstance(ax, (tuple, list)) else (ax,)))
        if cfg['feature_axes'] not in (-1,) or ax != list(range(x.ndim - len(ax), x.ndim)):
            raise Unmodelled(f'{name}: axes')
        k = len(ax)
    else:
        k = 1
    return on_tail(x, k, lambda n: app(f'nn.{name}', (n, num(cfg['epsilon'])) + ps, 'f', n.shape))


@layer('LayerNorm', {'use_bias': True, 'reduction_axes': -1, 'feature_axes': -1, **_NORM}, ['epsilon'])
def layernorm(it, cfg, fr, args, kwargs):
    return _last(it, 'layernorm', cfg, fr, args, True)


@layer('RMSNorm', {'reduction_axes': -1, 'feature_axes': -1, **_NORM}, ['epsilon'])
def rmsnorm(it, cfg, fr, args, kwargs):
    return _last(it, 'rmsnorm', cfg, fr, args, False)


@layer('BatchNorm', {'use_running_average': None, 'axis': -1, 'momentum': Fr(99, 100), 'use_bias': True, **_NORM},
       ['use_running_average'])
def batchnorm(it, cfg, fr, args, kwargs):
    x = lift(args[0])
    run_ = kwargs.get('use_running_average', cfg['use_running_average'])
    ps = _affine(it, cfg, fr, x.shape[-1])
    if run_ is True:
        raise Unmodelled('BatchNorm statistics')
    return of_node(app('nn.batchnorm', (x.node(), num(cfg['epsilon'])) + ps, 'f', x.shape))


@layer('Dropout', {'rate': REQ, 'deterministic': None, 'broadcast_dims': (), 'rng_collection': 'dropout'}, ['rate'])
def dropout(it, cfg, fr, args, kwargs):
    d = kwargs.get('deterministic', cfg['deterministic'])
    if d is True:
        return args[0]
    raise Unmodelled('active dropout')
