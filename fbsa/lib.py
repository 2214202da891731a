"""Transfer functions for the libraries the analysed code is written against (JAX, NumPy, flax, optax, builtins)."""
from fractions import Fraction as Fr
import math
import re
from .terms import *
from . import terms as tm
from .arr import *
from . import arr as ar
from .loops import Orbit, Comp, fresh_cvar, subst_cv
from . import interp as I
from .interp import (Ext, Func, Native, Opaque, Partial, Bound, Class, Instance, NT, Module, SymRange, SymStr, AtProxy,
                     Undef, StarArg, SymSeq as _S, concat_seq, list_to_seq, cat_str, fmt, fold_updates, isinstance_,
                     host_only, PathEnd)

LIB = {}

_CANON = [
    (re.compile(r'^(jax\.numpy|numpy)\b'), 'np'),
    (re.compile(r'^jax\.random\b'), 'random'),
    (re.compile(r'^jax\.image\b'), 'image'),
    (re.compile(r'^jax\.lax\b'), 'lax'),
    (re.compile(r'^jax\.scipy\b'), 'scipy'),
    (re.compile(r'^jax\.nn\b'), 'nn'),
    (re.compile(r'^flax\.linen\b'), 'nn'),
    (re.compile(r'^jax\.tree_util\.tree_'), 'tree.'),
    (re.compile(r'^jax\.tree\.'), 'tree.'),
    (re.compile(r'^jax\.tree_'), 'tree.'),
    (re.compile(r'^builtins\.'), ''),
]
_canon_c = {}


def canon(p):
    r = _canon_c.get(p)
    if r is None:
        r = p
        for rx, s in _CANON:
            r2 = rx.sub(s, r)
            if r2 != r:
                r = r2
                break
        _canon_c[p] = r
    return r


def const_value(p):
    if p in ('np.inf', 'math.inf'):
        return scalar(INF)
    if p in ('np.pi', 'math.pi'):
        return scalar(PI)
    if p in ('np.e', 'math.e'):
        return scalar(exp(ONE))
    if p in ('np.newaxis',):
        return NEWAXIS
    if p in ('np.nan', 'math.nan'):
        return scalar(mk('nan', (), 'f'))
    if p == 'Ellipsis':
        return Ellipsis
    return None


NEWAXIS = object()


def reg(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f

    return d


def sig(*params):
    """Bind (args, kwargs) of a library call to named parameters; params are 'name' or ('name', default)."""
    names = [p if isinstance(p, str) else p[0] for p in params]
    dfl = {p[0]: p[1] for p in params if not isinstance(p, str)}

    def deco(f):
        def g(it, args, kwargs):
            if len(args) > len(names):
                raise Definite(f'too many arguments for library function {f.__name__}', it.loc)
            vals = dict(zip(names, args))
            for k, v in kwargs.items():
                if k in IGNORED_KW and k not in names:
                    continue
                if k not in names:
                    raise Definite(f'unexpected keyword {k} for library function {f.__name__}', it.loc)
                if k in vals:
                    raise Definite(f'duplicate argument {k}', it.loc)
                vals[k] = v
            for n in names:
                if n not in vals:
                    if n in dfl:
                        vals[n] = dfl[n]
                    else:
                        raise Definite(f'missing argument {n} for library function {f.__name__}', it.loc)
            return f(it, **{('lambda_' if k == 'lambda' else k): v for k, v in vals.items()})

        g.__name__ = f.__name__
        return g

    return deco


IGNORED_KW = {'dtype', 'precision', 'out', 'indices_are_sorted', 'unique_indices', 'mode', 'unroll', 'static_argnums',
              'static_argnames', 'donate_argnums', 'fill_value', 'copy', 'order', 'prevent_cse', 'check_finite',
              'overwrite_a', 'overwrite_b', 'optimize', 'jit', 'method', 'kind', 'promote_integers', 'assume_a', 'stable',
              'device', 'name', 'inline', 'policy', 'preferred_element_type', 'npos', 'where_'}


def ext(it, x):
    return it.ext_value(x) if isinstance(x, Ext) else x


def A(it, x):
    if isinstance(x, Ext):
        x = it.ext_value(x)
    return lift(x)


def scal_py(a):
    """Give Python ints back for constant integer scalars that are host values."""
    return a


def elementwise(name, f):
    def g(it, args, kwargs):
        kw = {k: v for k, v in kwargs.items() if k not in IGNORED_KW}
        if kw:
            raise Unmodelled(f'{name} keyword {sorted(kw)}')
        xs = [A(it, a) for a in args]
        return I.simp_bool(ew(f, *xs)) if False else ew(f, *xs)

    return g


def _trig(name):
    def f(t):
        c = cval(t)
        if c == 0:
            return ZERO if name in ('sin', 'tan', 'sinh', 'tanh', 'arctan', 'arcsin') else ONE
        if name in ('sin', 'tan', 'sinh', 'tanh', 'cos', 'cosh') and pd(t):
            d = pd(t)
            lead = d[min(d, key=tm._dig_of)]
            if lead < 0:
                r = fn(name, neg(t))
                return r if name in ('cos', 'cosh') else neg(r)
        return fn(name, t)

    return f


def sinh_(t):
    return mul(const(Fr(1, 2)), sub(exp(t), exp(neg(t))))


def cosh_(t):
    return mul(const(Fr(1, 2)), add(exp(t), exp(neg(t))))


def tanh_(t):
    return div(sub(exp(mul(const(2), t)), ONE), add(exp(mul(const(2), t)), ONE))


def sigmoid_(t):
    return powq(add(ONE, exp(neg(t))), -1)


def sgn(t):
    s = sign(t)
    if s == 1:
        return ONE
    if s == -1:
        return neg(ONE)
    return sub(gt0(t), gt0(neg(t)))


def trunc_(t):
    if t.kind in 'ib':
        return t
    s = sign(t)
    if s is not None and s >= 0:
        return floor_(t)
    return fn('trunc', t, kind='i')


def ceil_(t):
    return neg(floor_(neg(t)))


def round_(t):
    if t.kind in 'ib':
        return t
    c = cval(t)
    if c is not None:
        return const(round(c))
    return fn('round', t, kind='i')


EW = {
    'exp': exp, 'log': log, 'sqrt': sqrt, 'abs': absv, 'absolute': absv, 'fabs': absv, 'square': lambda t: mul(t, t),
    'negative': neg, 'positive': lambda t: t, 'sin': _trig('sin'), 'cos': _trig('cos'), 'tan': _trig('tan'),
    'sinh': sinh_, 'cosh': cosh_, 'tanh': tanh_, 'expm1': lambda t: sub(exp(t), ONE), 'log1p': lambda t: log(add(ONE, t)),
    'log2': lambda t: div(log(t), log(const(2))), 'log10': lambda t: div(log(t), log(const(10))),
    'reciprocal': lambda t: powq(t, -1), 'sign': sgn, 'floor': floor_, 'ceil': ceil_, 'trunc': trunc_, 'rint': round_,
    'cbrt': lambda t: powq(t, Fr(1, 3)), 'exp2': lambda t: exp(mul(t, log(const(2)))),
    'add': add, 'subtract': sub, 'multiply': mul, 'divide': div, 'true_divide': div, 'power': power, 'float_power': power,
    'pow': power, 'floor_divide': floordiv, 'mod': mod, 'remainder': mod, 'maximum': maxv, 'minimum': minv, 'fmax': maxv,
    'fmin': minv, 'greater': lambda a, b: lt(b, a), 'greater_equal': lambda a, b: le(b, a), 'less': lt, 'less_equal': le,
    'equal': eq, 'not_equal': lambda a, b: not_(eq(a, b)), 'logical_not': not_, 'logical_and': and_, 'logical_or': or_,
    'invert': not_, 'bitwise_and': and_, 'bitwise_or': or_, 'bitwise_not': not_,
    'logical_xor': lambda a, b: sub(add(a, b), mul(const(2), mul(a, b))),
    'logaddexp': lambda a, b: log(add(exp(a), exp(b))), 'arctan': _trig('arctan'), 'arcsin': _trig('arcsin'),
    'real': lambda t: t, 'conj': lambda t: t, 'conjugate': lambda t: t, 'deg2rad': lambda t: div(mul(t, PI), const(180)),
    'hypot': lambda a, b: sqrt(add(mul(a, a), mul(b, b))), 'isnan': lambda t: ZERO, 'isfinite': lambda t: ONE,
    'isinf': lambda t: ZERO, 'nan_to_num': lambda t: t, 'rsqrt': lambda t: powq(t, Fr(-1, 2)),
}
for _n, _f in EW.items():
    LIB['np.' + _n] = elementwise(_n, _f)
for _n, _m in {'exp': 'exp', 'log': 'log', 'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'tanh': 'tanh', 'abs': 'abs',
               'neg': 'negative', 'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'div': 'divide', 'max': 'maximum',
               'min': 'minimum', 'pow': 'power', 'rem': 'mod', 'floor': 'floor', 'square': 'square', 'eq': 'equal',
               'lt': 'less', 'le': 'less_equal', 'gt': 'greater', 'ge': 'greater_equal', 'ne': 'not_equal',
               'expm1': 'expm1', 'log1p': 'log1p', 'rsqrt': 'rsqrt', 'integer_pow': 'power', 'sign': 'sign',
               'stop_gradient': 'positive', 'ceil': 'ceil', 'reciprocal': 'reciprocal'}.items():
    LIB['lax.' + _n] = LIB['np.' + _m]
for _n in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'pow', 'fabs', 'expm1', 'log1p', 'log2',
           'log10'):
    def _mathf(it, args, kwargs, _n=_n):
        return LIB['np.' + ('power' if _n == 'pow' else _n)](it, args, kwargs)


    LIB['math.' + _n] = _mathf


@reg('math.floor', 'math.ceil', 'math.trunc')
def _mfloor(it, args, kwargs):
    x = args[0]
    if isinstance(x, (int, Fr)):
        return math.floor(x)
    return ew(floor_, A(it, x))


def _mceil(it, args, kwargs):
    x = args[0]
    if isinstance(x, (int, Fr)):
        return math.ceil(x)
    return ew(ceil_, A(it, x))


LIB['math.ceil'] = _mceil


@reg('math.prod')
def _mprod(it, args, kwargs):
    l = it.iter_list(args[0])
    if l is None:
        raise Unmodelled('prod')
    r = ONE
    for x in l:
        if isinstance(x, StarDims):
            r = mul(r, x.rest)
        else:
            r = mul(r, as_dim(x) if not isinstance(x, Fr) else const(x))
    return pyint(r)


@reg('math.gcd')
def _mgcd(it, args, kwargs):
    return math.gcd(*args)


def pyint(t):
    c = ival(t)
    return c if c is not None else scalar(t)


for _n, _f in {'relu': lambda t: maxv(t, ZERO), 'sigmoid': sigmoid_, 'silu': lambda t: mul(t, sigmoid_(t)),
               'swish': lambda t: mul(t, sigmoid_(t)), 'softplus': lambda t: log(add(ONE, exp(t))),
               'log_sigmoid': lambda t: neg(log(add(ONE, exp(neg(t))))), 'tanh': tanh_,
               'leaky_relu': lambda t: maxv(t, mul(const(Fr(1, 100)), t))}.items():
    LIB['nn.' + _n] = elementwise(_n, _f)


@reg('nn.gelu')
def _gelu(it, args, kwargs):
    return ew(lambda t: fn('gelu', t), A(it, args[0]))


@reg('nn.elu', 'nn.celu', 'nn.selu', 'nn.hard_tanh', 'nn.soft_sign')
def _elu(it, args, kwargs):
    return ew(lambda t: fn('elu', t), A(it, args[0]))


# ----------------------------------------------------------------------------------------------------------------------
# reductions
# ----------------------------------------------------------------------------------------------------------------------
def wh(it, x, where, neutral):
    if where is None:
        return x
    return ew(lambda c, t: ite(c, t, neutral), A(it, where), x)


def reducer(op, neutral=None):
    @sig('a', ('axis', None), ('dtype', None), ('out', None), ('keepdims', False), ('initial', None), ('where', None))
    def red_(it, a, axis, dtype, out, keepdims, initial, where):
        x = A(it, a)
        if where is not None:
            x = wh(it, x, where, neutral)
        r = reduce_(x, axis, op, keepdims)
        if initial is not None:
            f = {'sum': add, 'prod': mul, 'max': maxv, 'min': minv}[op]
            r = ew(f, r, A(it, initial))
        return r

    return red_


for _n, _op, _z in (('sum', 'sum', ZERO), ('prod', 'prod', ONE), ('max', 'max', None), ('min', 'min', None),
                    ('any', 'any', ZERO), ('all', 'all', ONE), ('nansum', 'sum', ZERO), ('amax', 'max', None),
                    ('amin', 'min', None), ('nanmax', 'max', None), ('nanmin', 'min', None)):
    LIB['np.' + _n] = reducer(_op, _z)


@reg('np.mean', 'np.nanmean', 'np.average')
@sig('a', ('axis', None), ('dtype', None), ('out', None), ('keepdims', False), ('where', None), ('weights', None))
def np_mean(it, a, axis, dtype, out, keepdims, where, weights):
    x = A(it, a)
    if weights is not None:
        w = A(it, weights)
        if w.ndim != x.ndim:
            ax = 0 if axis is None else axis
            ax = norm_axis(ax, x.ndim)
            w = expand_dims(w, [i for i in range(x.ndim) if i != ax])
        num = reduce_(ew(mul, x, w), axis, 'sum', keepdims)
        den = reduce_(broadcast_to(w, x.shape), axis, 'sum', keepdims)
        return ew(div, num, den)
    if where is not None:
        raise Unmodelled('mean where')
    return mean(x, axis, keepdims)


def variance_of(it, x, axis, keepdims, ddof):
    x = A(it, x)
    axes = reduce_axes(x, axis)
    n = size_of([x.shape[a] for a in axes])
    m = mean(x, axis, True)
    c = ew(sub, x, m)
    s = reduce_(ew(mul, c, c), axis, 'sum', keepdims)
    dd = as_dim(ddof) if not isinstance(ddof, int) else const(ddof)
    return ew(lambda t: div(t, sub(n, dd)), s)


@reg('np.var')
@sig('a', ('axis', None), ('dtype', None), ('out', None), ('ddof', 0), ('keepdims', False))
def np_var(it, a, axis, dtype, out, ddof, keepdims):
    return variance_of(it, a, axis, keepdims, ddof)


@reg('np.std')
@sig('a', ('axis', None), ('dtype', None), ('out', None), ('ddof', 0), ('keepdims', False))
def np_std(it, a, axis, dtype, out, ddof, keepdims):
    return ew(sqrt, variance_of(it, a, axis, keepdims, ddof))


@reg('np.median', 'np.quantile', 'np.percentile')
def np_median(it, args, kwargs):
    raise Unmodelled('median')


def lse(x, axis=None, keepdims=False, b=None):
    e = ew(exp, x)
    if b is not None:
        e = ew(mul, e, b)
    return ew(log, reduce_(e, axis, 'sum', keepdims))


@reg('scipy.special.logsumexp', 'nn.logsumexp', 'nn.functions.logsumexp')
@sig('a', ('axis', None), ('b', None), ('keepdims', False), ('return_sign', False))
def logsumexp(it, a, axis, b, keepdims, return_sign):
    return lse(A(it, a), axis, keepdims, None if b is None else A(it, b))


@reg('nn.softmax', 'scipy.special.softmax')
@sig('x', ('axis', -1), ('where', None), ('initial', None))
def softmax(it, x, axis, where, initial):
    e = ew(exp, A(it, x))
    return ew(div, e, reduce_(e, axis, 'sum', True))


@reg('nn.log_softmax', 'scipy.special.log_softmax')
@sig('x', ('axis', -1))
def log_softmax(it, x, axis):
    x = A(it, x)
    return ew(sub, x, lse(x, axis, True))


def argred(name):
    @sig('a', ('axis', None), ('keepdims', False))
    def f(it, a, axis, keepdims):
        x = A(it, a)
        if axis is None:
            x = reshape(x, [size_of(x.shape)])
            axis = 0
        return reduce_(x, axis, name, keepdims)

    return f


LIB['np.argmax'] = argred('argmax')
LIB['np.argmin'] = argred('argmin')
LIB['lax.argmax'] = argred('argmax')


# ----------------------------------------------------------------------------------------------------------------------
# creation / shape manipulation
# ----------------------------------------------------------------------------------------------------------------------
def filled(shape, t):
    sl = shape_list(shape)
    if any(s is None for s in sl):
        raise Definite('negative extent')
    return build(sl, lambda *i: t)


def shp(it, s):
    if isinstance(s, Ext):
        s = it.ext_value(s)
    return s


@reg('np.zeros', 'np.empty')
@sig(('shape', ()), ('dtype', None))
def zeros(it, shape, dtype):
    return filled(shp(it, shape), ZERO)


@reg('np.ones')
@sig('shape', ('dtype', None))
def ones(it, shape, dtype):
    return filled(shp(it, shape), ONE)


@reg('np.full')
@sig('shape', 'fill_value', ('dtype', None))
def full(it, shape, fill_value, dtype):
    v = A(it, fill_value)
    if v.ndim == 0:
        return filled(shp(it, shape), v.body)
    return broadcast_to(v, shape_list(shp(it, shape)))


LIB['lax.full'] = full


def like(t):
    @sig('a', ('dtype', None), ('shape', None))
    def f(it, a, dtype, shape):
        x = A(it, a)
        return build(x.shape if shape is None else shape_list(shape), lambda *i: t)

    return f


LIB['np.zeros_like'] = like(ZERO)
LIB['np.ones_like'] = like(ONE)
LIB['np.empty_like'] = like(ZERO)


@reg('np.full_like')
@sig('a', 'fill_value', ('dtype', None), ('shape', None))
def full_like(it, a, fill_value, dtype, shape):
    x = A(it, a)
    return broadcast_to(A(it, fill_value), x.shape if shape is None else shape_list(shape))


@reg('np.eye', 'np.identity')
@sig('N', ('M', None), ('k', 0), ('dtype', None))
def eye(it, N, M, k, dtype):
    n = as_dim(N)
    m = n if M is None else as_dim(M)
    return build((n, m), lambda i, j: eq(add(i, const(k)), j))


@reg('np.array', 'np.asarray', 'np.copy', 'np.ascontiguousarray')
@sig('object', ('dtype', None), ('copy', None), ('ndmin', 0))
def array(it, object, dtype, copy, ndmin):
    return cast(A(it, object), dtype)


def dtype_kind(d):
    if d is None:
        return None
    if isinstance(d, Ext):
        p = canon(d.path)
        s = p.split('.')[-1]
    elif isinstance(d, str):
        s = d
    else:
        return None
    if s.startswith('int') or s.startswith('uint'):
        return 'i'
    if s.startswith('bool'):
        return 'b'
    if s.startswith('float') or s.startswith('bfloat') or s.startswith('double'):
        return 'f'
    return None


def cast(x, dtype):
    k = dtype_kind(dtype)
    if k == 'i' and x.kind == 'f':
        return ew(trunc_, x)
    if k == 'b' and x.kind != 'b':
        return ew(lambda t: not_(eq0(t)) if t.kind != 'b' else t, x)
    return x


@reg('np.astype')
@sig('x', 'dtype')
def astype(it, x, dtype):
    return cast(A(it, x), dtype)


LIB['lax.convert_element_type'] = astype
for _n in ('float32', 'float64', 'int32', 'int64', 'float16', 'bfloat16', 'int_', 'float_', 'bool_', 'uint8', 'uint32'):
    LIB['np.' + _n] = (lambda n: lambda it, args, kwargs: cast(A(it, args[0]), n))(_n)


@reg('np.arange', 'lax.iota')
def arange(it, args, kwargs):
    args = list(args)
    kw = dict(kwargs)
    kw.pop('dtype', None)
    if len(args) and isinstance(args[-1], Ext):
        args = args[:-1]
    for k in ('start', 'stop', 'step'):
        if k in kw:
            args.append(kw.pop(k))
    args = [A(it, a).body for a in args]
    if len(args) == 1:
        st, en, sp = ZERO, args[0], ONE
    else:
        st, en = args[:2]
        sp = args[2] if len(args) > 2 else ONE
    n = sub(en, st)
    if sp is not ONE:
        n = ceil_(div(n, sp))
    if sign(n) == -1:
        n = ZERO
    if n.kind == 'f':
        n = ceil_(n)
    return build((n,), lambda i: add(st, mul(sp, i)))


@reg('np.linspace')
@sig('start', 'stop', ('num', 50), ('endpoint', True), ('retstep', False), ('dtype', None), ('axis', 0))
def linspace(it, start, stop, num, endpoint, retstep, dtype, axis):
    a, b = A(it, start), A(it, stop)
    n = as_dim(num)
    den = sub(n, ONE) if endpoint is True else n
    sh = bshape([a.shape, b.shape])
    if sh:
        a, b = broadcast_to(a, sh), broadcast_to(b, sh)
    if axis != 0:
        raise Unmodelled('linspace axis')
    if n is ONE:
        den = ONE
    r = build((n,) + tuple(sh), lambda i, *r: add(a.at(r), div(mul(i, sub(b.at(r), a.at(r))), den)))
    if retstep is True:
        return r, ew(lambda p, q: div(sub(q, p), den), a, b)
    return r


@reg('np.logspace', 'np.geomspace')
def logspace(it, args, kwargs):
    raise Unmodelled('logspace')


@reg('np.diff')
@sig('a', ('n', 1), ('axis', -1), ('prepend', None), ('append', None))
def diff(it, a, n, axis, prepend, append):
    x = A(it, a)
    if prepend is not None or append is not None:
        ax = norm_axis(axis, x.ndim)
        parts = []

        def as_ax(v):
            v = A(it, v)
            if v.ndim == 0:
                sh = list(x.shape)
                sh[ax] = ONE
                return broadcast_to(v, sh)
            return v

        if prepend is not None:
            parts.append(as_ax(prepend))
        parts.append(x)
        if append is not None:
            parts.append(as_ax(append))
        x = concat(parts, ax)
    for _ in range(n):
        ax = norm_axis(axis, x.ndim)
        hi = index(x, tuple([slice(None)] * ax + [slice(1, None)]))
        lo = index(x, tuple([slice(None)] * ax + [slice(None, -1)]))
        x = ew(sub, hi, lo)
    return x


def cum(name):
    @sig('a', ('axis', None), ('dtype', None))
    def f(it, a, axis, dtype):
        x = A(it, a)
        if axis is None:
            x = reshape(x, [size_of(x.shape)])
            axis = 0
        ax = norm_axis(axis, x.ndim)
        q = fresh(add(x.vs[ax], ONE), tag='s')
        n = add(x.vs[ax], ONE)
        inner = x.at(x.vs[:ax] + (q,) + x.vs[ax + 1:])
        if name == 'sum':
            return Arr(x.shape, x.vs, sum_(n, q, inner))
        return Arr(x.shape, x.vs, red(name, n, q, inner))

    return f


LIB['np.cumsum'] = cum('sum')
LIB['np.cumprod'] = cum('prod')
LIB['lax.cumsum'] = cum('sum')
LIB['lax.cumprod'] = cum('prod')


@reg('np.reshape')
@sig('a', ('shape', None), ('newshape', None), ('order', 'C'))
def np_reshape(it, a, shape, newshape, order):
    return reshape(A(it, a), shape_list(shape if shape is not None else newshape))


LIB['lax.reshape'] = np_reshape


@reg('np.ravel')
@sig('a', ('order', 'C'))
def ravel(it, a, order):
    x = A(it, a)
    return reshape(x, [size_of(x.shape)])


@reg('np.transpose', 'np.permute_dims')
@sig('a', ('axes', None))
def np_transpose(it, a, axes):
    return transpose(A(it, a), None if axes is None else list(axes))


LIB['lax.transpose'] = np_transpose


@reg('np.matrix_transpose')
@sig('a')
def mT(it, a):
    x = A(it, a)
    p = list(range(x.ndim))
    p[-1], p[-2] = p[-2], p[-1]
    return transpose(x, p)


@reg('np.swapaxes')
@sig('a', 'axis1', 'axis2')
def swapaxes(it, a, axis1, axis2):
    x = A(it, a)
    p = list(range(x.ndim))
    i, j = norm_axis(axis1, x.ndim), norm_axis(axis2, x.ndim)
    p[i], p[j] = p[j], p[i]
    return transpose(x, p)


@reg('np.moveaxis')
@sig('a', 'source', 'destination')
def moveaxis(it, a, source, destination):
    x = A(it, a)
    s = [source] if isinstance(source, int) else list(source)
    d = [destination] if isinstance(destination, int) else list(destination)
    s = [norm_axis(i, x.ndim) for i in s]
    d = [norm_axis(i, x.ndim) for i in d]
    order = [i for i in range(x.ndim) if i not in s]
    for di, si in sorted(zip(d, s)):
        order.insert(di, si)
    return transpose(x, order)


@reg('np.expand_dims', 'lax.expand_dims')
@sig('a', 'axis')
def np_expand(it, a, axis):
    x = A(it, a)
    if isinstance(axis, (SymRange, _S)):
        # one singleton pseudo-axis per unknown-rank block
        if isinstance(axis, SymRange) and ival(axis.start) is not None:
            ln = sub(axis.stop, axis.start)
            n = rank_axes(ln)
            st = ival(axis.start)
            return expand_dims(x, list(range(st, st + n)))
        raise Unmodelled('expand_dims')
    if isinstance(axis, (tuple, list)):
        axis = [a_ if isinstance(a_, int) else ival(a_.body) for a_ in axis]
    return expand_dims(x, axis)


def rank_axes(ln):
    """number of pseudo-axes for a symbolic rank"""
    n = 0
    for m, c in pd(ln).items():
        if m == ():
            n += int(c)
        elif len(m) == 1 and m[0][0].op == 'rank' and c > 0:
            n += int(c)
        else:
            raise Unmodelled('axis count')
    return n


@reg('np.squeeze', 'lax.squeeze')
@sig('a', ('axis', None))
def np_squeeze(it, a, axis):
    x = A(it, a)
    if axis is None:
        return squeeze(x)
    axes = [axis] if isinstance(axis, int) else list(axis)
    for q in axes:
        q = norm_axis(q, x.ndim)
        if known_eq(x.shape[q], ONE) is not True:
            raise Definite('squeeze of an axis with extent other than one', it.loc)
    return squeeze(x, axes)


@reg('np.broadcast_to')
@sig('a', 'shape')
def np_bto(it, a, shape):
    return broadcast_to(A(it, a), shape_list(shape))


@reg('np.broadcast_arrays')
def np_barr(it, args, kwargs):
    xs = [A(it, a) for a in args]
    sh = bshape([x.shape for x in xs])
    return [broadcast_to(x, sh) for x in xs]


@reg('np.atleast_1d')
def atleast1(it, args, kwargs):
    x = A(it, args[0])
    return x if x.ndim else expand_dims(x, 0)


@reg('np.atleast_2d')
def atleast2(it, args, kwargs):
    x = A(it, args[0])
    while x.ndim < 2:
        x = expand_dims(x, 0)
    return x


def seq_arg(it, xs):
    if isinstance(xs, Arr):
        n = ival(xs.shape[0])
        if n is None:
            return None, xs
        return [index(xs, (i,)) for i in range(n)], xs
    if isinstance(xs, _S):
        return None, lift(xs)
    return [A(it, x) for x in xs], None


@reg('np.concatenate', 'np.concat')
@sig('arrays', ('axis', 0), ('dtype', None))
def concatenate(it, arrays, axis, dtype):
    l, s = seq_arg(it, arrays)
    if l is None:
        # symbolic number of equal-shape arrays
        x = s
        if axis is None:
            raise Unmodelled('concat axis')
        ax = norm_axis(axis, x.ndim - 1)
        y = transpose(x, list(range(1, ax + 1)) + [0] + list(range(ax + 1, x.ndim)))
        return reshape(y, list(y.shape[:ax]) + [mul(y.shape[ax], y.shape[ax + 1])] + list(y.shape[ax + 2:]))
    if axis is None:
        l = [reshape(x, [size_of(x.shape)]) for x in l]
        axis = 0
    if not l:
        raise Definite('concatenate of nothing', it.loc)
    return concat(l, axis)


@reg('lax.concatenate')
@sig('operands', 'dimension')
def lax_concat(it, operands, dimension):
    return concat([A(it, x) for x in operands], dimension)


@reg('np.stack')
@sig('arrays', ('axis', 0), ('dtype', None))
def np_stack(it, arrays, axis, dtype):
    l, s = seq_arg(it, arrays)
    if l is None:
        return moveaxis(it, [s, 0, axis], {}) if axis != 0 else s
    return stack(l, axis)


@reg('np.vstack', 'np.row_stack')
@sig('tup')
def vstack(it, tup):
    l, s = seq_arg(it, tup)
    if l is None:
        raise Unmodelled('vstack')
    l = [expand_dims(x, [0, 1]) if x.ndim == 0 else expand_dims(x, 0) if x.ndim == 1 else x for x in l]
    return concat(l, 0)


@reg('np.hstack')
@sig('tup')
def hstack(it, tup):
    l, s = seq_arg(it, tup)
    if l is None:
        raise Unmodelled('hstack')
    l = [expand_dims(x, 0) if x.ndim == 0 else x for x in l]
    return concat(l, 0 if l[0].ndim == 1 else 1)


@reg('np.block')
@sig('arrays')
def np_block(it, arrays):
    def depth(x):
        return 1 + max(map(depth, x)) if isinstance(x, list) else 0

    def up(x, d):
        return x if x.ndim >= d else expand_dims(x, list(range(d - x.ndim)))

    def go(x, d, nd):
        if not isinstance(x, list):
            return up(A(it, x), nd)
        return concat([go(y, d - 1, nd) for y in x], nd - d)

    def rank(x):
        return max(map(rank, x)) if isinstance(x, list) else A(it, x).ndim

    dp = depth(arrays)
    return go(arrays, dp, max(dp, rank(arrays)))


@reg('np.dstack')
@sig('tup')
def dstack(it, tup):
    l, s = seq_arg(it, tup)
    if l is None:
        raise Unmodelled('dstack')
    out = []
    for x in l:
        if x.ndim == 0:
            x = expand_dims(x, [0, 1, 2])
        elif x.ndim == 1:
            x = expand_dims(x, [0, 2])
        elif x.ndim == 2:
            x = expand_dims(x, 2)
        out.append(x)
    return concat(out, 2)


@reg('np.column_stack')
@sig('tup')
def column_stack(it, tup):
    l, s = seq_arg(it, tup)
    l = [expand_dims(x, 1) if x.ndim == 1 else x for x in l]
    return concat(l, 1)


@reg('np.append')
@sig('arr', 'values', ('axis', None))
def np_append(it, arr, values, axis):
    return concatenate(it, [[A(it, arr), A(it, values)]], {'axis': axis})


@reg('np.insert')
@sig('arr', 'obj', 'values', ('axis', None))
def np_insert(it, arr, obj, values, axis):
    x = A(it, arr)
    if axis is None:
        x = reshape(x, [size_of(x.shape)])
        axis = 0
    ax = norm_axis(axis, x.ndim)
    o = A(it, obj)
    if o.ndim != 0:
        if o.ndim == 1 and o.shape[0] is ONE:
            o = squeeze(o, [0])
        else:
            raise Unmodelled('insert at several positions')
    p = wrap_index(o.body, add(x.shape[ax], ZERO))
    v = A(it, values)
    sh = list(x.shape)
    sh[ax] = ONE
    if v.ndim == x.ndim:
        sh[ax] = v.shape[ax]
    elif v.ndim == x.ndim - 1 and v.ndim > 0 and ax == 0:
        v = expand_dims(v, 0)
    v = broadcast_to(v, sh)
    lo = index(x, tuple([slice(None)] * ax + [slice(None, scalar(p))]))
    hi = index(x, tuple([slice(None)] * ax + [slice(scalar(p), None)]))
    return concat([lo, v, hi], ax)


@reg('np.delete')
@sig('arr', 'obj', ('axis', None))
def np_delete(it, arr, obj, axis):
    x = A(it, arr)
    if axis is None:
        x = reshape(x, [size_of(x.shape)])
        axis = 0
    ax = norm_axis(axis, x.ndim)
    o = A(it, obj)
    if o.ndim != 0:
        raise Unmodelled('delete several')
    p = wrap_index(o.body, x.shape[ax])
    sh = list(x.shape)
    sh[ax] = sub(sh[ax], ONE)
    vs = [fresh(s) for s in sh]
    src = add(vs[ax], le(p, vs[ax]))
    return Arr(sh, vs, x.at(tuple(vs[:ax]) + (src,) + tuple(vs[ax + 1:])))


@reg('np.repeat')
@sig('a', 'repeats', ('axis', None), ('total_repeat_length', None))
def np_repeat(it, a, repeats, axis, total_repeat_length):
    x = A(it, a)
    if axis is None:
        x = reshape(x, [size_of(x.shape)])
        axis = 0
    ax = norm_axis(axis, x.ndim)
    n = as_dim(repeats)
    sh = list(x.shape)
    sh[ax] = mul(sh[ax], n)
    vs = [fresh(s) for s in sh]
    src = ZERO if x.shape[ax] is ONE else floordiv(vs[ax], n)
    return Arr(sh, vs, x.at(tuple(vs[:ax]) + (src,) + tuple(vs[ax + 1:])))


@reg('np.tile')
@sig('A', 'reps')
def np_tile(it, A, reps):
    x = lift(A)
    r = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    if any(is_rest(s) for s in x.shape) and len(r) < x.ndim:
        r = [1] * (x.ndim - len(r)) + r
    while len(r) < x.ndim:
        r = [1] + r
    while x.ndim < len(r):
        x = expand_dims(x, 0)
    sh, src = [], []
    vs = []
    for d, n in zip(x.shape, r):
        n = as_dim(n) if not isinstance(n, StarDims) else n.rest
        s = mul(d, n)
        v = fresh(s)
        sh.append(s)
        vs.append(v)
        src.append(ZERO if d is ONE else v if n is ONE else mod(v, d))
    return Arr(sh, vs, x.at(src))


@reg('np.flip')
@sig('m', ('axis', None))
def np_flip(it, m, axis):
    x = A(it, m)
    axes = range(x.ndim) if axis is None else [norm_axis(a, x.ndim) for a in
                                               ([axis] if isinstance(axis, int) else axis)]
    idx = [sub(sub(x.shape[i], ONE), v) if i in axes else v for i, v in enumerate(x.vs)]
    return Arr(x.shape, x.vs, x.at(idx))


LIB['np.flipud'] = lambda it, a, k: np_flip(it, [a[0], 0], {})
LIB['np.fliplr'] = lambda it, a, k: np_flip(it, [a[0], 1], {})


@reg('lax.rev')
@sig('operand', 'dimensions')
def lax_rev(it, operand, dimensions):
    return np_flip(it, [operand, tuple(dimensions)], {})


@reg('np.roll')
@sig('a', 'shift', ('axis', None))
def np_roll(it, a, shift, axis):
    x = A(it, a)
    if axis is None:
        if x.ndim != 1:
            sh = x.shape
            return reshape(np_roll(it, [reshape(x, [size_of(sh)]), shift, 0], {}), sh)
        axis = 0
    ax = norm_axis(axis, x.ndim)
    s = A(it, shift)
    if s.ndim:
        raise Unmodelled('roll')
    n = x.shape[ax]
    v = x.vs[ax]
    sh = s.body
    if cval(sh) is not None:
        # constant shift: an explicit join
        c = ival(sh)
        if c == 0:
            return x
        if c > 0:
            src = ite(lt(v, const(c)), add(sub(v, const(c)), n), sub(v, const(c)))
        else:
            src = ite(lt(add(v, const(-c)), n), sub(v, const(c)), sub(sub(v, const(c)), n))
    else:
        src = mod(sub(v, sh), n)
    return Arr(x.shape, x.vs, x.at(x.vs[:ax] + (src,) + x.vs[ax + 1:]))


@reg('np.take')
@sig('a', 'indices', ('axis', None), ('out', None), ('mode', None))
def np_take(it, a, indices, axis, out, mode):
    x = A(it, a)
    if axis is None:
        x = reshape(x, [size_of(x.shape)])
        axis = 0
    ax = norm_axis(axis, x.ndim)
    return index(x, tuple([slice(None)] * ax + [A(it, indices)]))


@reg('np.take_along_axis')
@sig('arr', 'indices', 'axis')
def np_taa(it, arr, indices, axis):
    x, i = A(it, arr), A(it, indices)
    ax = norm_axis(axis, x.ndim)
    sh = [bshape([(a,), (b,)])[0] if k != ax else b for k, (a, b) in enumerate(zip(x.shape, i.shape))]
    vs = [fresh(s) for s in sh]
    e = wrap_index(i.at([ZERO if i.shape[k] is ONE else v for k, v in enumerate(vs)]), x.shape[ax])
    src = [e if k == ax else (ZERO if x.shape[k] is ONE else v) for k, v in enumerate(vs)]
    return Arr(sh, vs, x.at(src))


@reg('lax.dynamic_index_in_dim')
@sig('operand', 'index', ('axis', 0), ('keepdims', True))
def dyn_index(it, operand, index, axis, keepdims):
    x = A(it, operand)
    ax = norm_axis(axis, x.ndim)
    r = ar.index(x, tuple([slice(None)] * ax + [index]))
    return expand_dims(r, ax) if keepdims is not False else r


@reg('lax.index_in_dim')
@sig('operand', 'index', ('axis', 0), ('keepdims', True))
def ind_index(it, operand, index, axis, keepdims):
    return dyn_index(it, [operand, index, axis, keepdims], {})


@reg('lax.dynamic_slice_in_dim')
@sig('operand', 'start_index', 'slice_size', ('axis', 0))
def dyn_slice_dim(it, operand, start_index, slice_size, axis):
    x = A(it, operand)
    ax = norm_axis(axis, x.ndim)
    n = as_dim(slice_size)
    st = A(it, start_index).body
    sh = list(x.shape)
    sh[ax] = n
    vs = [fresh(s) for s in sh]
    # out-of-range starts are clamped by XLA; the in-range case is what the graph records
    return Arr(sh, vs, x.at(tuple(vs[:ax]) + (add(vs[ax], st),) + tuple(vs[ax + 1:])))


@reg('lax.slice_in_dim')
@sig('operand', 'start_index', 'limit_index', ('stride', 1), ('axis', 0))
def slice_dim(it, operand, start_index, limit_index, stride, axis):
    x = A(it, operand)
    ax = norm_axis(axis, x.ndim)
    return index(x, tuple([slice(None)] * ax + [slice(start_index, limit_index, stride)]))


@reg('lax.dynamic_slice')
@sig('operand', 'start_indices', 'slice_sizes')
def dyn_slice(it, operand, start_indices, slice_sizes):
    x = A(it, operand)
    st = [A(it, s).body for s in it.iter_list(start_indices)]
    sh = shape_list(slice_sizes)
    vs = [fresh(s) for s in sh]
    src = []
    for v, s, n, full in zip(vs, st, sh, x.shape):
        # XLA clamps the start so that the window stays inside
        hi = sub(full, n)
        src.append(add(v, minv(maxv(s, ZERO), hi)))
    return Arr(sh, vs, x.at(src))


@reg('lax.dynamic_update_slice')
@sig('operand', 'update', 'start_indices')
def dyn_upd(it, operand, update, start_indices):
    x, u = A(it, operand), A(it, update)
    st = [A(it, s).body for s in it.iter_list(start_indices)]
    conds, src = ONE, []
    for v, s, n, full in zip(x.vs, st, u.shape, x.shape):
        s = minv(maxv(s, ZERO), sub(full, n))
        conds = mul(conds, mul(le(s, v), lt(v, add(s, n))))
        src.append(sub(v, s))
    return Arr(x.shape, x.vs, ite(conds, u.at(src), x.body))


@reg('np.where')
def np_where(it, args, kwargs):
    if len(args) + len(kwargs) != 3:
        raise Unmodelled('one-argument where')
    args = list(args) + list(kwargs.values())
    c, a, b = [A(it, x) for x in args]
    c = asbool(c)
    return ew(ite, c, a, b)


@reg('lax.select')
@sig('pred', 'on_true', 'on_false')
def lax_select(it, pred, on_true, on_false):
    c, a, b = asbool(A(it, pred)), A(it, on_true), A(it, on_false)
    if len(a.shape) != len(b.shape) or any(known_eq(x, y) is not True for x, y in zip(a.shape, b.shape)):
        raise Definite('lax.select branches with different shapes', it.loc)
    return ew(ite, c, a, b)


LIB['lax.select_n'] = lambda it, a, k: ew(ite, asbool(A(it, a[0])), A(it, a[2]), A(it, a[1]))


def asbool(c):
    if c.kind == 'b' or isbool(c.body):
        return c
    return ew(lambda t: not_(eq0(t)), c)


def isbool(t):
    if t.kind == 'b':
        return True
    if t.op == 'poly' and t.args:
        return all(all(a.op == 'ind' for a, e in m) for m, c in t.args) or cval(t) in (0, 1)
    return cval(t) in (0, 1)


@reg('np.clip', 'lax.clamp')
def np_clip(it, args, kwargs):
    kw = {k: v for k, v in kwargs.items() if k not in IGNORED_KW}
    args = list(args)
    names = ['a', 'a_min', 'a_max']
    vals = dict(zip(names, args))
    for k, v in kw.items():
        vals[{'min': 'a_min', 'max': 'a_max', 'arr': 'a'}.get(k, k)] = v
    x = A(it, vals['a'])
    if vals.get('a_min') is not None:
        x = ew(maxv, x, A(it, vals['a_min']))
    if vals.get('a_max') is not None:
        x = ew(minv, x, A(it, vals['a_max']))
    return x


def _lclamp(it, args, kwargs):
    return np_clip(it, [args[1], args[0], args[2]], {})


LIB['lax.clamp'] = _lclamp


@reg('np.diag')
@sig('v', ('k', 0))
def np_diag(it, v, k):
    x = A(it, v)
    if k != 0:
        raise Unmodelled('diag offset')
    if x.ndim == 1:
        return build((x.shape[0], x.shape[0]), lambda i, j: mul(eq(i, j), x.at((i,))))
    return build((x.shape[0],), lambda i: x.at((i, i)))


@reg('np.diagonal')
@sig('a', ('offset', 0), ('axis1', 0), ('axis2', 1))
def np_diagonal(it, a, offset, axis1, axis2):
    x = A(it, a)
    ax = [norm_axis(axis1, x.ndim), norm_axis(axis2, x.ndim)]
    i = fresh(x.shape[ax[0]])
    src = [i if k in ax else v for k, v in enumerate(x.vs)]
    keep = [k for k in range(x.ndim) if k not in ax]
    return Arr([x.shape[k] for k in keep] + [x.shape[ax[0]]], [x.vs[k] for k in keep] + [i], x.at(src))


@reg('np.trace')
@sig('a', ('offset', 0), ('axis1', 0), ('axis2', 1))
def np_trace(it, a, offset, axis1, axis2):
    d = np_diagonal(it, [a, offset, axis1, axis2], {})
    return reduce_(d, -1, 'sum')


@reg('np.tril', 'np.triu')
def np_tril(it, args, kwargs):
    raise Unmodelled('tril')


@reg('np.dot')
@sig('a', 'b')
def np_dot(it, a, b):
    a, b = A(it, a), A(it, b)
    if a.ndim == 0 or b.ndim == 0:
        return ew(mul, a, b)
    if b.ndim > 2 or (a.ndim > 2):
        raise Unmodelled('dot of high-rank arrays')
    return matmul(a, b)


LIB['np.matmul'] = lambda it, a, k: matmul(A(it, a[0]), A(it, a[1]))
LIB['lax.dot'] = np_dot


@reg('np.vdot', 'np.inner')
@sig('a', 'b')
def np_vdot(it, a, b):
    a, b = A(it, a), A(it, b)
    if a.ndim == 1 and b.ndim == 1:
        return matmul(a, b)
    a = reshape(a, [size_of(a.shape)])
    b = reshape(b, [size_of(b.shape)])
    return matmul(a, b)


@reg('np.outer')
@sig('a', 'b')
def np_outer(it, a, b):
    a, b = A(it, a), A(it, b)
    a = reshape(a, [size_of(a.shape)])
    b = reshape(b, [size_of(b.shape)])
    return ew(mul, expand_dims(a, 1), expand_dims(b, 0))


@reg('np.kron')
@sig('a', 'b')
def np_kron(it, a, b):
    a, b = A(it, a), A(it, b)
    return build((mul(a.shape[0], b.shape[0]), mul(a.shape[1], b.shape[1])),
                 lambda i, j: mul(a.at((floordiv(i, b.shape[0]), floordiv(j, b.shape[1]))),
                                  b.at((mod(i, b.shape[0]), mod(j, b.shape[1])))))


@reg('np.tensordot')
@sig('a', 'b', ('axes', 2))
def np_tensordot(it, a, b, axes):
    a, b = A(it, a), A(it, b)
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = [[q] if isinstance(q, int) else list(q) for q in axes]
    ax = [norm_axis(q, a.ndim) for q in ax]
    bx = [norm_axis(q, b.ndim) for q in bx]
    la = [i for i in range(a.ndim) if i not in ax]
    lb = [i for i in range(b.ndim) if i not in bx]
    av, bv = list(a.vs), [fresh(s) for s in b.shape]
    for i, j in zip(ax, bx):
        if known_eq(a.shape[i], b.shape[j]) is not True:
            raise Definite('tensordot shape mismatch', it.loc)
        bv[j] = av[i]
    body = mul(a.body, b.at(bv))
    for i in ax[::-1]:
        body = sum_(a.shape[i], av[i], body)
    return Arr([a.shape[i] for i in la] + [b.shape[j] for j in lb], [av[i] for i in la] + [bv[j] for j in lb], body)


@reg('np.einsum')
def np_einsum(it, args, kwargs):
    spec = args[0].replace(' ', '')
    xs = [A(it, x) for x in args[1:]]
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        allc = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    ins = ins.split(',')
    if len(ins) != len(xs):
        raise Definite('einsum operand count', it.loc)
    env, size = {}, {}
    body = ONE
    ell = None
    for s, x in zip(ins, xs):
        labels = []
        if '...' in s:
            pre, post = s.split('...')
            ne = x.ndim - len(pre) - len(post)
            labels = list(pre) + [f'.{ne - i}' for i in range(ne)] + list(post)
            ell = max(ell or 0, ne)
        else:
            labels = list(s)
        if len(labels) != x.ndim:
            raise Definite(f'einsum subscript {s} against rank {x.ndim}', it.loc)
        idx = []
        for c, d in zip(labels, x.shape):
            if c not in env:
                env[c], size[c] = fresh(d), d
            elif known_eq(size[c], d) is not True:
                if d is ONE:
                    idx.append(ZERO)
                    continue
                if size[c] is ONE:
                    env_old = env[c]
                    nv = fresh(d)
                    body = subst(body, {env_old: ZERO})
                    env[c], size[c] = nv, d
                else:
                    raise Definite('einsum extent mismatch', it.loc)
            idx.append(env[c])
        body = mul(body, x.at(idx))
    if '...' in out:
        pre, post = out.split('...')
        ol = list(pre) + [f'.{(ell or 0) - i}' for i in range(ell or 0)] + list(post)
    else:
        ol = list(out)
    for c in env:
        if c not in ol:
            body = sum_(size[c], env[c], body)
    return Arr([size[c] for c in ol], [env[c] for c in ol], body)


@reg('np.meshgrid')
def np_meshgrid(it, args, kwargs):
    xs = [A(it, a) for a in args]
    ij = kwargs.get('indexing', 'xy') == 'ij'
    n = len(xs)
    order = list(range(n))
    if not ij and n >= 2:
        order[0], order[1] = 1, 0
    sh = [xs[order[k]].shape[0] for k in range(n)]
    out = []
    for q, x in enumerate(xs):
        pos = order.index(q)
        out.append(build(sh, lambda *i, x=x, pos=pos: x.at((i[pos],))))
    return out


@reg('np.pad')
@sig('array', 'pad_width', ('mode', 'constant'), ('constant_values', 0))
def np_pad(it, array, pad_width, mode, constant_values):
    x = A(it, array)
    if mode != 'constant':
        raise Unmodelled('pad mode')
    pw = pad_width
    if isinstance(pw, int):
        pw = [(pw, pw)] * x.ndim
    elif isinstance(pw, (tuple, list)) and len(pw) == 2 and not isinstance(pw[0], (tuple, list)):
        pw = [tuple(pw)] * x.ndim
    elif len(pw) == 1 and x.ndim > 1:
        pw = list(pw) * x.ndim
    sh, vs, cond, src = [], [], ONE, []
    for d, (lo, hi) in zip(x.shape, pw):
        lo, hi = as_dim(lo), as_dim(hi)
        s = add(d, add(lo, hi))
        v = fresh(s)
        sh.append(s)
        vs.append(v)
        if lo is not ZERO:
            cond = mul(cond, le(lo, v))
        if hi is not ZERO:
            cond = mul(cond, lt(v, add(lo, d)))
        src.append(sub(v, lo))
    return Arr(sh, vs, ite(cond, x.at(src), A(it, constant_values).body))


def _split(it, a, indices, axis, exact):
    x = A(it, a)
    ax = norm_axis(axis, x.ndim)
    n = x.shape[ax]
    if isinstance(indices, (list, tuple)):
        ends = [as_dim(i) for i in indices] + [n]
        out = []
        st = ZERO
        for e in ends:
            out.append(index(x, tuple([slice(None)] * ax + [slice(scalar(st), scalar(e))])))
            st = e
        return out
    m = as_dim(indices)
    mi = ival(m)
    if mi is not None and mi <= 64:
        q = div(n, m)
        if all(e >= 0 for mo in pd(q) for _, e in mo) and all(c.denominator == 1 for c in pd(q).values()):
            return [index(x, tuple([slice(None)] * ax + [slice(scalar(mul(const(i), q)), scalar(mul(const(i + 1), q)))]))
                    for i in range(mi)]
        if exact:
            raise Unmodelled('split into parts of undetermined divisibility')
    if exact and mi is None:
        q = div(n, m)
        if all(e >= 0 for mo in pd(q) for _, e in mo) and ival(q) is None or ival(q):
            v = fresh(m)
            st = mul(v, q)
            w = fresh(q)
            vs = list(x.vs)
            vs[ax] = w
            sh = list(x.shape)
            sh[ax] = q
            body = x.at(tuple(x.vs[:ax]) + (add(st, w),) + tuple(x.vs[ax + 1:]))
            return SymSeq(m, v, Arr(sh, vs, body))
    # np.array_split(x, m): n mod m sections of size n//m + 1, the rest n//m
    q, r = floordiv(n, m), mod(n, m)
    v = fresh(m)
    if r is ZERO:
        st, ln = mul(v, q), q
    else:
        st = add(mul(v, q), minv(v, r))
        ln = add(q, lt(v, r))
    w = fresh(ln)
    vs = list(x.vs)
    vs[ax] = w
    sh = list(x.shape)
    sh[ax] = ln
    body = x.at(tuple(x.vs[:ax]) + (add(st, w),) + tuple(x.vs[ax + 1:]))
    return SymSeq(m, v, Arr(sh, vs, body))


@reg('np.split', 'np.array_split')
@sig('ary', 'indices_or_sections', ('axis', 0))
def np_split(it, ary, indices_or_sections, axis):
    return _split(it, ary, indices_or_sections, axis, True)


LIB['np.array_split'] = sig('ary', 'indices_or_sections', ('axis', 0))(
    lambda it, ary, indices_or_sections, axis: _split(it, ary, indices_or_sections, axis, False))


def arrfn(name, args, kind, shape, **props):
    n = mk('arrfn', (name,) + tuple(args), kind, shape=tuple(shape))
    return n


@reg('np.sort')
@sig('a', ('axis', -1), ('descending', False))
def np_sort(it, a, axis, descending):
    x = A(it, a)
    return on_last(x, 1, lambda n: arrfn('sort', (n,), x.kind, n.shape), axis)


@reg('np.argsort')
@sig('a', ('axis', -1), ('descending', False))
def np_argsort(it, a, axis, descending):
    x = A(it, a)
    return on_last(x, 1, lambda n: arrfn('argsort', (n,), 'i', n.shape), axis)


LIB['lax.sort'] = np_sort


def on_last(x, k, f, axis=-1):
    """Apply a node-level function to the trailing k axes of x."""
    if axis not in (-1, x.ndim - 1):
        ax = norm_axis(axis, x.ndim)
        x = transpose(x, [i for i in range(x.ndim) if i != ax] + [ax])
        r = on_last(x, k, f)
        back = list(range(x.ndim - 1))
        back.insert(ax, x.ndim - 1)
        return transpose(r, back)
    lead = x.shape[:-k] if k else x.shape
    lv = x.vs[:-k] if k else x.vs
    n = lam(x.shape[len(lead):], x.vs[len(lead):], x.body)
    r = of_node(f(n))
    return Arr(lead + r.shape, lv + r.vs, r.body)


@reg('np.searchsorted')
@sig('a', 'v', ('side', 'left'), ('sorter', None))
def np_searchsorted(it, a, v, side, sorter):
    a, v = A(it, a), A(it, v)
    if a.ndim != 1:
        raise Unmodelled('searchsorted')
    q = fresh(a.shape[0], tag='s')
    e = a.at((q,))

    def one(t):
        # number of entries strictly below (left) / not above (right)
        c = lt(e, t) if side == 'left' else le(e, t)
        return sum_(a.shape[0], q, c)

    r = ew(one, v)
    return r


LIB['np.digitize'] = lambda it, a, k: np_searchsorted(it, [a[1], a[0], 'right'], {})


@reg('np.ravel_multi_index')
@sig('multi_index', 'dims', ('mode', None), ('order', 'C'))
def ravel_mi(it, multi_index, dims, mode, order):
    mi = it.iter_list(multi_index)
    ds = [as_dim(d) for d in dims]
    if mi is None or len(mi) != len(ds):
        raise Definite('ravel_multi_index arity', it.loc)
    r = A(it, mi[0])
    for x, d in zip(mi[1:], ds[1:]):
        r = ew(lambda p, q, d=d: divmod_fold(add(mul(p, d), q)), r, A(it, x))
    return r


@reg('np.unravel_index')
@sig('indices', 'shape')
def unravel_i(it, indices, shape):
    x = A(it, indices)
    ds = [as_dim(d) for d in shape]
    out = []
    for d in ds[::-1]:
        out.append(ew(lambda t, d=d: mod(t, d), x))
        x = ew(lambda t, d=d: floordiv(t, d), x)
    return tuple(out[::-1])


@reg('np.setdiff1d')
@sig('ar1', 'ar2', ('assume_unique', False), ('size', None), ('fill_value', None))
def setdiff1d(it, ar1, ar2, assume_unique, size, fill_value):
    a, b = A(it, ar1), A(it, ar2)
    a = reshape(a, [size_of(a.shape)])
    b = reshape(b, [size_of(b.shape)])
    an, bn = a.node(), b.node()
    n = as_dim(size) if size is not None else mk('arrfn', ('card_setdiff', an, bn), 'i', shape=())
    if n.op == 'arrfn':
        tm.PROPS[n] = {'nonneg': True, 'min': 0}
    r = arrfn('setdiff1d', (an, bn), 'i', (n,))
    ar.DISJOINT.add(frozenset((r, bn)))
    ar.INJ.add(r)
    return of_node(r)


@reg('image.resize')
@sig('image', 'shape', 'method', ('antialias', True), ('precision', None))
def image_resize(it, image, shape, method, antialias, precision):
    x = A(it, image)
    sh = rshape(it, shape)
    if len(sh) != x.ndim:
        raise Definite('image.resize: shape and image have different ranks', it.loc)
    if method in ('nearest',):
        # out[i] = in[floor((i + 1/2) in / out)]
        def at(*ix):
            src = []
            for i, a, b in zip(ix, x.shape, sh):
                if known_eq(a, b) is True:
                    src.append(i)
                else:
                    src.append(floordiv(mul(add(mul(const(2), i), ONE), a), mul(const(2), b)))
            return x.at(tuple(src))
        return build(sh, at)
    # separable: axes that keep their extent are passed through
    keep = [i for i in range(x.ndim) if known_eq(x.shape[i], sh[i]) is True]
    mv = [i for i in range(x.ndim) if i not in keep]
    if not mv:
        return x
    y = transpose(x, keep + mv)
    out = tuple(sh[i] for i in mv)
    y = flaxlib.on_tail(y, len(mv), lambda n: arrfn('resize', (n, str(method), str(antialias)), 'f', out))
    return transpose(y, [(keep + mv).index(i) for i in range(x.ndim)])


@reg('lax.conv_general_dilated')
@sig('lhs', 'rhs', 'window_strides', 'padding', ('lhs_dilation', None), ('rhs_dilation', None),
     ('dimension_numbers', None), ('feature_group_count', 1), ('batch_group_count', 1), ('precision', None),
     ('preferred_element_type', None))
def conv_gd(it, lhs, rhs, window_strides, padding, lhs_dilation, rhs_dilation, dimension_numbers, feature_group_count,
            batch_group_count, precision, preferred_element_type):
    x, k = A(it, lhs), A(it, rhs)
    if lhs_dilation is not None or rhs_dilation is not None or feature_group_count != 1 or batch_group_count != 1:
        raise Unmodelled('dilated or grouped convolution')
    if padding not in ('SAME',) or any(ival(as_dim(q)) != 1 for q in window_strides):
        raise Unmodelled('strided or padded convolution')
    dn = dimension_numbers or ('NCHW', 'OIHW', 'NCHW')
    li, ri, oi = dn
    if x.ndim != len(li) or k.ndim != len(ri):
        raise Definite('convolution: ranks do not fit the dimension numbers', it.loc)
    if known_eq(x.shape[li.index('C')], k.shape[ri.index('I')]) is not True:
        raise Definite('convolution: input channels of image and kernel differ', it.loc)
    # canonical layouts: image NHWC, kernel HWIO
    x = transpose(x, [li.index(q) for q in 'NHWC'])
    k = transpose(k, [ri.index(q) for q in 'HWIO'])
    out = of_node(arrfn('conv_same', (x.node(), k.node()), 'f', x.shape[:3] + (k.shape[3],)))
    return transpose(out, ['NHWC'.index(q) for q in oi])


@reg('np.unique', 'np.nonzero', 'np.isin', 'np.intersect1d', 'np.bincount', 'np.histogram')
def unsup(it, args, kwargs):
    raise Unmodelled('set operation')


@reg('np.flatnonzero')
@sig('a', ('size', None), ('fill_value', None))
def flatnonzero(it, a, size, fill_value):
    x = A(it, a)
    x = reshape(x, [size_of(x.shape)])
    xn = x.node()
    n = as_dim(size) if size is not None else mk('arrfn', ('card_nonzero', xn), 'i', shape=())
    r = arrfn('flatnonzero', (xn,), 'i', (n,))
    ar.INJ.add(r)
    return of_node(r)


@reg('np.ix_')
def np_ix(it, args, kwargs):
    xs = [A(it, a) for a in args]
    n = len(xs)
    return tuple(expand_dims(x, [j for j in range(n) if j != i]) for i, x in enumerate(xs))


@reg('np.size')
def np_size(it, args, kwargs):
    x = A(it, args[0])
    if len(args) > 1:
        return pydim(x.shape[norm_axis(args[1], x.ndim)])
    return pyint(size_of(x.shape))


@reg('np.shape')
def np_shape(it, args, kwargs):
    return shape_tuple(A(it, args[0]))


@reg('np.ndim')
def np_ndim(it, args, kwargs):
    return ndim_of(A(it, args[0]))


@reg('np.isscalar')
def np_isscalar(it, args, kwargs):
    return isinstance(args[0], (int, Fr))


@reg('np.polyfit', 'np.load', 'np.savez', 'np.save', 'np.genfromtxt', 'np.savetxt')
def np_io(it, args, kwargs):
    if it.unknown_ext is not None:
        return it.unknown_ext(it, 'np.io', args, kwargs)
    raise Unmodelled('file input')


@reg('np.allclose', 'np.array_equal')
def np_allclose(it, args, kwargs):
    return reduce_(ew(eq, A(it, args[0]), A(it, args[1])), None, 'all')


@reg('np.apply_along_axis', 'np.vectorize')
def np_aal(it, args, kwargs):
    raise Unmodelled('apply_along_axis')


@reg('np.trapz', 'np.trapezoid', 'scipy.integrate.trapezoid')
@sig('y', ('x', None), ('dx', 1), ('axis', -1))
def trapezoid(it, y, x, dx, axis):
    y = A(it, y)
    ax = norm_axis(axis, y.ndim)
    hi = index(y, tuple([slice(None)] * ax + [slice(1, None)]))
    lo = index(y, tuple([slice(None)] * ax + [slice(None, -1)]))
    m = ew(lambda p, q: mul(const(Fr(1, 2)), add(p, q)), hi, lo)
    if x is None:
        d = A(it, dx)
    else:
        d = diff(it, [A(it, x)], {})
        if d.ndim == 1 and y.ndim > 1:
            d = expand_dims(d, [i for i in range(y.ndim) if i != ax])
    return reduce_(ew(mul, m, d), ax, 'sum')


# ----------------------------------------------------------------------------------------------------------------------
# linear algebra
# ----------------------------------------------------------------------------------------------------------------------
def mfn(name, *nodes, shape=None):
    """Matrix function node."""
    A0 = nodes[0]
    if name == 'inv':
        if A0.op == 'mfn' and A0.args[0] == 'inv':
            return A0.args[1]
        d = diag_of(A0)
        if d is not None:
            vs, e = d
            return lam(A0.shape, vs, mul(eq(vs[0], vs[1]), powq(e, -1)))
        k = scal_factor(A0)
        if k is not None:
            c, B = k
            n = mfn('inv', B)
            vs = [fresh(s) for s in A0.shape]
            return lam(A0.shape, vs, mul(powq(c, -1), elem(n, vs)))
        vs = [fresh(s) for s in A0.shape]
        At = lam(A0.shape, vs, elem(A0, (vs[1], vs[0])))
        if At is A0:
            tm.SYMMETRIC.add(A0)
        elif (At.op == 'lam', At.dig) < (A0.op == 'lam', A0.dig):
            # inv(A.T) = inv(A).T
            n = mk('mfn', ('inv', At), 'f', shape=A0.shape)
            return lam(A0.shape, vs, elem(n, (vs[1], vs[0])))
    if name in ('cholesky', 'sqrtm'):
        d = diag_of(A0)
        if d is not None:
            vs, e = d
            return lam(A0.shape, vs, mul(eq(vs[0], vs[1]), sqrt(e)))
    if name == 'expm':
        d = diag_of(A0)
        if d is not None:
            vs, e = d
            return lam(A0.shape, vs, mul(eq(vs[0], vs[1]), exp(e)))
    if name == 'logdet':
        return mk('elem', (mk('mfn', (name, A0), 'f', shape=()),), 'f', shape=())
    return mk('mfn', (name,) + nodes, 'f', shape=A0.shape if shape is None else shape)


tm.LOGDET[0] = lambda n: logdet_of(n)
tm.REBUILD_HOOKS['mfn'] = lambda t, args, shape: mfn(*args, shape=shape)


def diag_of(Anode):
    """(vs, entry) when the node is syntactically diagonal."""
    if Anode.op != 'lam' or len(Anode.shape) != 2:
        return None
    vs, b = open_lam(Anode)
    dlt = eq(vs[0], vs[1])
    if set_ind_full(b, dlt, 0) is ZERO:
        e = subst(set_ind_full(b, dlt, 1), {vs[1]: vs[0]})
        return vs, e
    n, m = ival(Anode.shape[0]), ival(Anode.shape[1])
    if n is not None and n == m and n <= 4:
        at = lambda i, j: subst(b, {vs[0]: const(i), vs[1]: const(j)})
        if all(at(i, j) is ZERO for i in range(n) for j in range(n) if i != j):
            e = ZERO
            for i in range(n):
                e = add(e, mul(eq(vs[0], const(i)), at(i, i)))
            return vs, e
    return None


def set_ind_full(b, ind, val):
    if ind.op != 'ind':
        return b
    return set_ind(b, ind, val)


def scal_factor(Anode):
    """A = c * B with scalar c free of the indices."""
    if Anode.op != 'lam' or len(Anode.shape) != 2:
        return None
    vs, b = open_lam(Anode)
    d = pd(b)
    if len(d) != 1:
        return None
    (m, c), = d.items()
    inv = tuple((a, e) for a, e in m if not (a.fs & set(vs)))
    dep = tuple((a, e) for a, e in m if a.fs & set(vs))
    if not inv and c == 1:
        return None
    return frompd({inv: c}), lam(Anode.shape, vs, frompd({dep: Fr(1)}))


def square_check(it, x):
    if x.ndim < 2:
        raise Definite('matrix function of a vector', it.loc)
    if known_eq(x.shape[-1], x.shape[-2]) is not True:
        raise Definite(f'matrix function of a non-square array {tuple_pp(x.shape)}', it.loc)


def matfun(name):
    def f(it, args, kwargs):
        x = A(it, args[0])
        square_check(it, x)
        return on_last(x, 2, lambda n: mfn(name, n))

    return f


@reg('np.linalg.cholesky', 'scipy.linalg.cholesky', 'lax.linalg.cholesky')
def cholesky(it, args, kwargs):
    x = A(it, args[0])
    square_check(it, x)
    r = on_last(x, 2, lambda n: mfn('cholesky', n))
    lower = kwargs.get('lower', args[1] if len(args) > 1 else None)
    return r


def scipy_chol(it, args, kwargs):
    x = A(it, args[0])
    square_check(it, x)
    r = on_last(x, 2, lambda n: mfn('cholesky', n))
    lower = kwargs.get('lower', args[1] if len(args) > 1 else False)
    if lower is True:
        return r
    return transpose(r, list(range(r.ndim - 2)) + [r.ndim - 1, r.ndim - 2])


LIB['scipy.linalg.cholesky'] = scipy_chol
LIB['np.linalg.inv'] = matfun('inv')
LIB['scipy.linalg.inv'] = matfun('inv')
LIB['scipy.linalg.expm'] = matfun('expm')
LIB['scipy.linalg.sqrtm'] = matfun('sqrtm')


def inv_(it, x):
    return matfun('inv')(it, [x], {})


@reg('np.linalg.solve', 'scipy.linalg.solve')
@sig('a', 'b', ('lower', False), ('assume_a', None))
def solve(it, a, b, lower, assume_a):
    a, b = A(it, a), A(it, b)
    square_check(it, a)
    return matmul(inv_(it, a), b)


@reg('scipy.linalg.solve_triangular')
@sig('a', 'b', ('trans', 0), ('lower', False), ('unit_diagonal', False))
def solve_tri(it, a, b, trans, lower, unit_diagonal):
    a = A(it, a)
    square_check(it, a)
    lower = bool(lower) if isinstance(lower, (bool, int)) else lower
    if not isinstance(lower, bool) or unit_diagonal not in (False, None) or trans not in (0, 1, 'N', 'T'):
        raise Unmodelled('solve_triangular options', it.loc)

    def tri(n):
        """The triangle that is read: only elements on one side of the diagonal enter the solution."""
        vs = [fresh(s) for s in n.shape]
        t = lam(tuple(reversed(n.shape)), list(reversed(vs)), elem(n, vs))
        if diag_of(n) is not None:
            return n
        for m, low in ((n, True), (t, False)):
            if m.op == 'mfn' and m.args[0] == 'cholesky':
                if low is not lower:
                    raise Definite('solve_triangular reads the zero triangle of a Cholesky factor', it.loc)
                return n
        keep = le(vs[1], vs[0]) if lower else le(vs[0], vs[1])
        return lam(n.shape, vs, ite(keep, elem(n, vs), ZERO))

    a = on_last(a, 2, tri)
    if trans in (1, 'T'):
        a = transpose(a, list(range(a.ndim - 2)) + [a.ndim - 1, a.ndim - 2])
    return matmul(inv_(it, a), A(it, b))


class ChoFactor:
    """(c, lower) pair of scipy.linalg.cho_factor."""

    def __init__(self, a):
        self.a = a


@reg('scipy.linalg.cho_factor')
def cho_factor(it, args, kwargs):
    x = A(it, args[0])
    square_check(it, x)
    low = kwargs.get('lower', args[1] if len(args) > 1 else False)
    return (on_last(x, 2, lambda n: mk('mfn', ('chofac' + ('L' if low is True else 'U'), n), 'f', shape=n.shape)), low)


@reg('scipy.linalg.cho_solve')
def cho_solve(it, args, kwargs):
    c, low = args[0]
    c = A(it, c)
    b = A(it, args[1] if len(args) > 1 else kwargs['b'])

    def to_inv(n):
        if n.op == 'mfn' and n.args[0] in ('chofacL', 'chofacU'):
            if (low is True) != (n.args[0] == 'chofacL'):
                raise Definite('cho_solve reads the triangle that cho_factor does not write', it.loc)
            return mfn('inv', n.args[1])
        if n.op == 'mfn' and n.args[0] == 'cholesky':
            if low is not True:
                raise Definite('cho_solve told that a lower factor is upper', it.loc)
            return mfn('inv', n.args[1])
        d = diag_of(n)
        if d is not None:
            vs, e = d
            return lam(n.shape, vs, mul(eq(vs[0], vs[1]), powq(e, -2)))
        i = mfn('inv', n)
        vs = [fresh(s) for s in n.shape]
        k = fresh(n.shape[0])
        if low is True:
            return lam(n.shape, vs, sum_(n.shape[0], k, mul(elem(i, (k, vs[0])), elem(i, (k, vs[1])))))
        return lam(n.shape, vs, sum_(n.shape[0], k, mul(elem(i, (vs[0], k)), elem(i, (vs[1], k)))))

    return matmul(on_last(c, 2, to_inv), b)


@reg('np.linalg.eigh')
def eigh(it, args, kwargs):
    x = A(it, args[0])
    square_check(it, x)
    w = on_last(x, 2, lambda n: mk('mfn', ('eigval', n), 'f', shape=n.shape[:1]))
    v = on_last(x, 2, lambda n: mk('mfn', ('eigvec', n), 'f', shape=n.shape))
    return (w, v)


@reg('np.linalg.slogdet')
def slogdet(it, args, kwargs):
    x = A(it, args[0])
    return (scalar(ONE), scalar(mfn('logdet', x.node())))


@reg('np.linalg.det')
def det(it, args, kwargs):
    x = A(it, args[0])
    return scalar(exp(mfn('logdet', x.node())))


@reg('np.linalg.norm')
@sig('x', ('ord', None), ('axis', None), ('keepdims', False))
def norm(it, x, ord, axis, keepdims):
    if ord not in (None, 2):
        raise Unmodelled('norm order')
    x = A(it, x)
    return ew(sqrt, reduce_(ew(mul, x, x), axis, 'sum', keepdims))


LIB['np.linalg.multi_dot'] = lambda it, a, k: _multidot(it, a[0])


def _multidot(it, xs):
    r = A(it, xs[0])
    for x in xs[1:]:
        r = matmul(r, A(it, x))
    return r


@reg('np.linalg.matrix_power')
def matrix_power(it, args, kwargs):
    x = A(it, args[0])
    r = x
    for _ in range(args[1] - 1):
        r = matmul(r, x)
    return r


# ----------------------------------------------------------------------------------------------------------------------
# statistics
# ----------------------------------------------------------------------------------------------------------------------
def norm_logpdf(x, loc, sc):
    z = div(sub(x, loc), sc)
    return sub(mul(const(Fr(-1, 2)), mul(z, z)),
               add(log(sc), mul(const(Fr(1, 2)), log(mul(const(2), PI)))))


@reg('scipy.stats.norm.logpdf')
@sig('x', ('loc', 0), ('scale', 1))
def sp_norm_logpdf(it, x, loc, scale):
    return ew(norm_logpdf, A(it, x), A(it, loc), A(it, scale))


@reg('scipy.stats.norm.pdf')
@sig('x', ('loc', 0), ('scale', 1))
def sp_norm_pdf(it, x, loc, scale):
    return ew(lambda *a: exp(norm_logpdf(*a)), A(it, x), A(it, loc), A(it, scale))


@reg('scipy.stats.multivariate_normal.logpdf')
@sig('x', 'mean', 'cov', ('allow_singular', None))
def mvn_logpdf(it, x, mean, cov, allow_singular):
    x, m, S = A(it, x), A(it, mean), A(it, cov)
    if S.ndim == 0:
        n = x.shape[-1] if x.ndim else ONE
        S = build((n, n), lambda i, j: mul(eq(i, j), S.body)) if x.ndim else S
    d = ew(sub, x, m)
    if d.ndim == 0:
        return ew(norm_logpdf, x, m, ew(sqrt, S))
    n = d.shape[-1]
    P = inv_(it, S)
    i, j = fresh(n), fresh(n)
    q = sum_(n, i, sum_(n, j, mul(mul(d.at(d.vs[:-1] + (i,)), P.at((i, j))), d.at(d.vs[:-1] + (j,)))))
    body = sub(mul(const(Fr(-1, 2)), q), mul(const(Fr(1, 2)), add(mul(n, log(mul(const(2), PI))), logdet_of(S.node()))))
    return Arr(d.shape[:-1], d.vs[:-1], body)


def logdet_of(n):
    d = diag_of(n)
    if d is not None:
        vs, e = d
        return sum_(n.shape[0], vs[0], log(e))
    k = scal_factor(n)
    if k is not None:
        c, B = k
        return add(mul(n.shape[0], log(c)), logdet_of(B))
    return mfn('logdet', n)


@reg('scipy.stats.multivariate_normal.pdf')
def mvn_pdf(it, args, kwargs):
    return ew(exp, mvn_logpdf(it, args, kwargs))


# ----------------------------------------------------------------------------------------------------------------------
# random numbers
# ----------------------------------------------------------------------------------------------------------------------
def keyn(it, k):
    x = A(it, k)
    if x.ndim != 0 or x.kind != 'k':
        if x.kind == 'k':
            raise Definite('a batch of PRNG keys used as one key', it.loc)
        raise Definite('not a PRNG key', it.loc)
    return x.body


def rand(name, key, params, kind, shape):
    shape = tuple(shape)
    keep = [i for i, s in enumerate(shape) if s is not ONE]
    sh = tuple(shape[i] for i in keep)
    n = mk('rand', (name, key) + tuple(params) + (('sh',) + sh,), kind, shape=sh)
    if len(keep) == len(shape):
        return of_node(n)
    if not keep:
        return build(shape, lambda *ix: of_node(n).body)
    return build(shape, lambda *ix: elem(n, tuple(ix[i] for i in keep)))


@reg('random.PRNGKey', 'random.key')
@sig('seed', ('impl', None))
def prngkey(it, seed, impl):
    return scalar(kseed(A(it, seed).body))


@reg('random.split')
@sig('key', ('num', 2))
def r_split(it, key, num):
    k = keyn(it, key)
    if isinstance(num, (tuple, list)):
        ns = [as_dim(x) for x in num]
        if len(ns) == 1:
            return build((ns[0],), lambda i: ksplit(k, ns[0], i))
        tot = size_of(ns)

        def f(*ix):
            flat = ZERO
            for i, n in zip(ix, ns):
                flat = add(mul(flat, n), i)
            return ksplit(k, tot, flat)

        return build(ns, f)
    n = as_dim(num)
    return build((n,), lambda i: ksplit(k, n, i))


@reg('random.fold_in')
@sig('key', 'data')
def r_fold(it, key, data):
    return scalar(kfold(keyn(it, key), A(it, data).body))


def rshape(it, shape):
    sl = shape_list(shape if shape is not None else ())
    if any(s is None for s in sl):
        raise Definite('negative extent', it.loc)
    return tuple(sl)


@reg('random.normal')
@sig('key', ('shape', ()), ('dtype', None))
def r_normal(it, key, shape, dtype):
    return rand('normal', keyn(it, key), (), 'f', rshape(it, shape))


@reg('random.uniform')
@sig('key', ('shape', ()), ('dtype', None), ('minval', 0), ('maxval', 1))
def r_uniform(it, key, shape, dtype, minval, maxval):
    u = rand('uniform01', keyn(it, key), (), 'f', rshape(it, shape))
    return ew(lambda t, a, b: add(a, mul(t, sub(b, a))), u, A(it, minval), A(it, maxval))


@reg('random.bernoulli')
@sig('key', ('p', Fr(1, 2)), ('shape', None))
def r_bern(it, key, p, shape):
    p = A(it, p)
    sh = p.shape if shape is None else rshape(it, shape)
    u = rand('uniform01', keyn(it, key), (), 'f', sh)
    return ew(lt, u, p)


@reg('random.exponential')
@sig('key', ('shape', ()), ('dtype', None))
def r_expo(it, key, shape, dtype):
    u = rand('uniform01', keyn(it, key), (), 'f', rshape(it, shape))
    return ew(lambda t: neg(log(sub(ONE, t))), u)


@reg('random.gumbel')
@sig('key', ('shape', ()), ('dtype', None))
def r_gumbel(it, key, shape, dtype):
    return rand('gumbel', keyn(it, key), (), 'f', rshape(it, shape))


@reg('random.randint')
@sig('key', 'shape', 'minval', 'maxval', ('dtype', None))
def r_randint(it, key, shape, minval, maxval, dtype):
    lo, hi = A(it, minval), A(it, maxval)
    sh = rshape(it, shape)
    if lo.ndim or hi.ndim:
        raise Unmodelled('randint with array bounds')
    n = sub(hi.body, lo.body)
    u = rand('randint', keyn(it, key), (n,), 'i', sh)
    return ew(lambda t: add(lo.body, t), u)


def node_or_scalar(x):
    return x.node() if x.ndim else x.body


@reg('random.choice')
@sig('key', 'a', ('shape', ()), ('replace', True), ('p', None), ('axis', 0), ('mode', None))
def r_choice(it, key, a, shape, replace, p, axis, mode):
    x = A(it, a)
    sh = rshape(it, shape)
    k = keyn(it, key)
    if x.ndim == 0:
        n = x.body
        ax = None
    else:
        ax = norm_axis(axis, x.ndim)
        n = x.shape[ax]
    if p is None:
        pn = ('uniform',)
        if replace is True:
            idx = rand('randint', k, (n,), 'i', sh)
        elif len(sh) == 1 and known_eq(sh[0], n) is True:
            idx = perm(k, n)
        else:
            idx = rand('choice_norep', k, (n,), 'i', sh)
    else:
        p = A(it, p)
        if p.ndim != 1 or known_eq(p.shape[0], n) is not True:
            raise Definite('choice: p and a have different lengths', it.loc)
        w = p.vs[0]
        tot = sum_(n, w, p.body)
        pn = lam(p.shape, p.vs, div(p.body, tot))
        idx = rand('choice' if replace is True else 'choice_norep', k, (n, pn), 'i', sh)
    if ax is None:
        return idx
    return index(x, tuple([slice(None)] * ax + [idx])) if True else None


@reg('random.categorical')
@sig('key', 'logits', ('axis', -1), ('shape', None))
def r_categorical(it, key, logits, axis, shape):
    l = A(it, logits)
    k = keyn(it, key)
    if l.ndim != 1:
        raise Unmodelled('batched categorical')
    n = l.shape[0]
    e = exp(l.body)
    tot = sum_(n, l.vs[0], e)
    pn = lam(l.shape, l.vs, div(e, tot))
    return rand('choice', k, (n, pn), 'i', rshape(it, shape))


@reg('random.permutation')
@sig('key', 'x', ('axis', 0), ('independent', False))
def r_permutation(it, key, x, axis, independent):
    x = A(it, x)
    k = keyn(it, key)
    if x.ndim == 0:
        return perm(k, x.body)
    if independent is True and x.ndim > 1:
        raise Unmodelled('independent permutation')
    ax = norm_axis(axis, x.ndim)
    return index(x, tuple([slice(None)] * ax + [perm(k, x.shape[ax])]))


LIB['random.shuffle'] = r_permutation


def perm(k, n):
    r = mk('rand', ('permutation', k, n), 'i', shape=(n,))
    ar.INJ.add(r)
    return of_node(r)


@reg('random.multivariate_normal')
@sig('key', 'mean', 'cov', ('shape', None), ('dtype', None), ('method', 'cholesky'))
def r_mvn(it, key, mean, cov, shape, dtype, method):
    m = A(it, mean)
    L = matfun('cholesky')(it, [cov], {})
    lead = m.shape[:-1] if shape is None else rshape(it, shape)
    z = rand('normal', keyn(it, key), (), 'f', tuple(lead) + (m.shape[-1],))
    return ew(add, m, matmul(z, transpose(L)))


@reg('random.truncated_normal', 'random.gamma', 'random.beta', 'random.dirichlet', 'random.poisson', 'random.laplace',
     'random.t', 'random.cauchy')
def r_other(it, args, kwargs):
    raise Unmodelled('random distribution')


LIB['random.key_data'] = lambda it, a, k: a[0]
LIB['random.wrap_key_data'] = lambda it, a, k: a[0]


# ----------------------------------------------------------------------------------------------------------------------
# control flow
# ----------------------------------------------------------------------------------------------------------------------
def fix_kinds(phs, new_leaves):
    """Float-typed update of a placeholder introduced as integer: retype the placeholder."""
    m = {}
    out = list(phs)
    for i, (p, l) in enumerate(zip(phs, new_leaves)):
        if p.kind != l.kind and p.kind in 'ib' and l.kind in 'fi':
            q = fresh_cvar(p.shape, l.kind)
            m[p] = q
            out[i] = q
    return out, m


def run_scan(it, step, init, n, xs_at, xs_rev=False):
    """step(carry, x) -> (carry, y); returns (carry, ys)."""
    leaves, rb = it.flatten(init)
    td = it.tree_def(init)
    if ival(n) is not None and 1 <= ival(n) <= 4:
        carry, ys = init, []
        for i in range(ival(n)):
            carry, y = step(carry, xs_at(const(ival(n) - 1 - i if xs_rev else i)))
            ys.append(y)
            if it.tree_def(carry) != td or any(len(a.shape) != len(b.shape) or any(known_eq(p, q) is not True for p, q in zip(
                    a.shape, b.shape)) for a, b in zip(leaves, it.flatten(carry)[0])):
                raise Definite('loop body changes the structure of the carry', it.loc)
        if xs_rev:
            ys = ys[::-1]
        fl = [it.flatten(y)[0] for y in ys]
        yrb = it.flatten(ys[0])[1]
        return carry, yrb([stack([f[i] for f in fl]) for i in range(len(fl[0]))])
    k = fresh(n, tag='k')
    tm.PROPS[k]['nonneg'] = True
    kinds = [l.kind for l in leaves]
    for attempt in range(3):
        phs = [fresh_cvar(l.shape, kd) for l, kd in zip(leaves, kinds)]
        carry = rb([of_node(p) for p in phs])
        x = xs_at(sub(sub(n, ONE), k) if xs_rev else k)
        carry2, y = step(carry, x)
        nl, _ = it.flatten(carry2)
        if it.tree_def(carry2) != td or len(nl) != len(leaves):
            raise Definite('loop body changes the structure of the carry', it.loc)
        nk = [l.kind for l in nl]
        bad = [i for i in range(len(nl)) if nk[i] != kinds[i] and kinds[i] in 'ib' and not (kinds[i] == 'i' and nk[i] == 'b')]
        if not bad:
            break
        for i in bad:
            kinds[i] = 'f' if nk[i] == 'f' else 'i'
    comps = []
    for l, ph, q in zip(leaves, phs, nl):
        if len(l.shape) != len(q.shape) or any(known_eq(a, b) is False for a, b in zip(l.shape, q.shape)):
            raise Definite(f'loop carry changes shape {tuple_pp(l.shape)} -> {tuple_pp(q.shape)}', it.loc)
        if any(known_eq(a, b) is not True for a, b in zip(l.shape, q.shape)):
            raise Definite(f'loop carry shape {tuple_pp(l.shape)} -> {tuple_pp(q.shape)}', it.loc)
        q = broadcast_to(q, l.shape) if q.shape != l.shape else q
        comps.append(Comp(l.shape, ph.kind, ph, node_or_scalar(l), node_or_scalar(q)))
    orb = Orbit(comps, k)
    final = rb([of_node(orb.at(i, n)) for i in range(len(leaves))])

    def emit(a):
        a = lift(a)
        j = fresh(n)
        it_no = sub(sub(n, ONE), j) if xs_rev else j
        bn = node_or_scalar(a)
        bn = fold_updates(bn, comps, orb, k)
        v = orb.at_expr(bn, it_no)
        v = of_node(v)
        return Arr((n,) + v.shape, (j,) + v.vs, v.body)

    yl, yrb = it.flatten(y)
    ys = yrb([emit(a) for a in yl])
    return final, ys


def leading(it, xs):
    ls, _ = it.flatten(xs)
    if not ls:
        return None
    for l in ls:
        if l.ndim == 0:
            raise Definite('scan over a scalar', it.loc)
    n = ls[0].shape[0]
    for l in ls[1:]:
        if known_eq(l.shape[0], n) is not True:
            raise Definite(f'scanned arrays have different leading extents {pp(n)} / {pp(l.shape[0])}', it.loc)
    return n


def at_lead(it, xs, i):
    ls, rb = it.flatten(xs)
    return rb([index(l, (scalar(i),)) for l in ls])


@reg('lax.scan')
@sig('f', 'init', ('xs', None), ('length', None), ('reverse', False), ('unroll', 1))
def lax_scan(it, f, init, xs, length, reverse, unroll):
    n = leading(it, xs) if xs is not None else None
    if n is None:
        if length is None:
            raise Definite('scan without xs or length', it.loc)
        n = as_dim(length)
    elif length is not None and known_eq(as_dim(length), n) is not True:
        raise Definite('scan length mismatch', it.loc)
    def step(c, x):
        r = it.call(f, [c, x], {})
        if not isinstance(r, tuple) or len(r) != 2:
            raise Definite('scan body must return a pair', it.loc)
        return r
    return run_scan(it, step, init, n, lambda i: at_lead(it, xs, i) if xs is not None else None, reverse is True)


@reg('lax.fori_loop')
@sig('lower', 'upper', 'body_fun', 'init_val', ('unroll', None))
def lax_fori(it, lower, upper, body_fun, init_val, unroll):
    lo, hi = A(it, lower).body, A(it, upper).body
    n = sub(hi, lo)
    c, _ = run_scan(it, lambda c, i: (it.call(body_fun, [scalar(i), c], {}), None), init_val, n, lambda i: add(lo, i))
    return c


@reg('lax.while_loop')
def lax_while(it, args, kwargs):
    raise Unmodelled('while_loop')


@reg('lax.map')
@sig('f', 'xs', ('batch_size', None))
def lax_map(it, f, xs, batch_size):
    n = leading(it, xs)
    _, ys = run_scan(it, lambda c, x: (c, it.call(f, [x], {})), (), n, lambda i: at_lead(it, xs, i))
    return ys


@reg('lax.associative_scan')
def lax_assoc(it, args, kwargs):
    raise Unmodelled('associative_scan')


@reg('lax.cond')
def lax_cond(it, args, kwargs):
    if 'operand' in kwargs:
        args = list(args) + [kwargs['operand']]
    pred, tf, ff = args[:3]
    ops = list(args[3:])
    c = it.truth(ext(it, pred))
    if c is True:
        return it.call(tf, ops, {})
    if c is False:
        return it.call(ff, ops, {})
    a, b = it.call(tf, ops, {}), it.call(ff, ops, {})
    if it.tree_def(a) != it.tree_def(b):
        raise Definite('cond branches return different structures', it.loc)
    return joint(it, c, a, b)


def joint(it, c, a, b):
    la, rb = it.flatten(a)
    lb, _ = it.flatten(b)
    for x, y in zip(la, lb):
        if len(x.shape) != len(y.shape) or any(known_eq(p, q) is not True for p, q in zip(x.shape, y.shape)):
            raise Definite('cond branches return different shapes', it.loc)
    return rb([ew(lambda p, q: ite(c, p, q), x, y) for x, y in zip(la, lb)])


@reg('lax.switch')
def lax_switch(it, args, kwargs):
    i = A(it, args[0])
    br = it.iter_list(args[1])
    ops = list(args[2:])
    c = ival(i.body)
    if c is not None:
        return it.call(br[min(max(c, 0), len(br) - 1)], ops, {})
    r = it.call(br[-1], ops, {})
    for q in range(len(br) - 2, -1, -1):
        r = joint(it, lt(i.body, const(q + 1)), it.call(br[q], ops, {}), r)
    return r


@reg('jax.jit', 'jax.checkpoint', 'jax.remat', 'jax.named_call', 'jax.disable_jit', 'jax.ensure_compile_time_eval',
     'nn.jit', 'nn.remat', 'nn.compact')
def jit(it, args, kwargs):
    if not args:
        return Native('jit', lambda it2, a, k: a[0] if a else jit(it2, a, k))
    return args[0]


@reg('functools.partial')
def f_partial(it, args, kwargs):
    return Partial(args[0], list(args[1:]), dict(kwargs))


@reg('functools.reduce')
def f_reduce(it, args, kwargs):
    l = it.iter_list(args[1])
    if l is None:
        raise Unmodelled('reduce')
    l = list(l)
    acc = args[2] if len(args) > 2 else l.pop(0)
    for x in l:
        acc = it.call(args[0], [acc, x], {})
    return acc


@reg('functools.wraps')
def f_wraps(it, args, kwargs):
    return Native('wraps', lambda it2, a, k: a[0])


def map_axes(it, v, ax):
    """(leaves, axes, rebuild) for a pytree with in_axes prefix ax."""
    if ax is None or isinstance(ax, int):
        ls, rb = it.flatten(v)
        return ls, [ax] * len(ls), rb
    if isinstance(ax, (tuple, list)) and isinstance(v, (tuple, list)):
        if len(ax) != len(v):
            raise Definite('vmap axes do not match the argument structure', it.loc)
        parts = [map_axes(it, x, a) for x, a in zip(v, ax)]
        ls = sum((p[0] for p in parts), [])
        axs = sum((p[1] for p in parts), [])
        ty = (lambda q: NT(v.k, q)) if isinstance(v, NT) else (list if isinstance(v, list) else tuple)

        def rb(l):
            out, i = [], 0
            for p in parts:
                out.append(p[2](l[i:i + len(p[0])]))
                i += len(p[0])
            return ty(out)

        return ls, axs, rb
    if isinstance(ax, dict) and isinstance(v, dict):
        ks = sorted(v, key=repr)
        parts = [map_axes(it, v[k], ax.get(k)) for k in ks]

        def rb(l):
            out, i = {}, 0
            for k, p in zip(ks, parts):
                out[k] = p[2](l[i:i + len(p[0])])
                i += len(p[0])
            return out

        return sum((p[0] for p in parts), []), sum((p[1] for p in parts), []), rb
    if isinstance(ax, Arr):
        return map_axes(it, v, ival(ax.body))
    raise Definite('vmap axes do not match the argument structure', it.loc)


@reg('jax.vmap', 'nn.vmap', 'jax.pmap')
@sig('fun', ('in_axes', 0), ('out_axes', 0), ('axis_name', None), ('axis_size', None), ('spmd_axis_name', None))
def vmap(it, fun, in_axes, out_axes, axis_name, axis_size, spmd_axis_name):
    def call(it, args, kwargs):
        ia = in_axes
        if isinstance(ia, list):
            ia = tuple(ia)
        if isinstance(ia, tuple):
            if len(ia) != len(args):
                raise Definite(f'vmap in_axes of length {len(ia)} for {len(args)} arguments', it.loc)
        else:
            ia = (ia,) * len(args)
        parts = [map_axes(it, a, x) for a, x in zip(args, ia)]
        kparts = {k: map_axes(it, v, 0) for k, v in kwargs.items()}
        n = None
        for ls, axs, rb in parts + list(kparts.values()):
            for l, x in zip(ls, axs):
                if x is None:
                    continue
                if l.ndim == 0:
                    raise Definite('vmap over an axis of a scalar', it.loc)
                if any(is_rest(s) for s in l.shape) and (x < 0 or is_rest(l.shape[x])):
                    raise Definite('vmap over part of a state block of arbitrary rank', it.loc)
                s = l.shape[norm_axis(x, l.ndim)]
                if n is None:
                    n = s
                elif known_eq(n, s) is not True:
                    raise Definite(f'vmap over axes of different extents {pp(n)} / {pp(s)}', it.loc)
        if n is None:
            if axis_size is None:
                raise Definite('vmap without any mapped argument', it.loc)
            n = as_dim(axis_size)
        v = fresh(n)

        def sl(ls, axs, rb):
            out = []
            for l, x in zip(ls, axs):
                if x is None:
                    out.append(l)
                else:
                    x = norm_axis(x, l.ndim)
                    idx = l.vs[:x] + (v,) + l.vs[x + 1:]
                    out.append(Arr(l.shape[:x] + l.shape[x + 1:], l.vs[:x] + l.vs[x + 1:], l.at(idx)))
            return rb(out)

        r = it.call(fun, [sl(*p) for p in parts], {k: sl(*p) for k, p in kparts.items()})
        ls, axs, rb = map_axes(it, r, out_axes)
        out = []
        for l, x in zip(ls, axs):
            if x is None:
                if v in l.body.fs:
                    raise Definite('vmap out_axes=None for a mapped result', it.loc)
                out.append(l)
                continue
            w = fresh(n)
            b = subst(l.body, {v: w})
            if any(v in s.fs for s in l.shape):
                raise Definite('vmapped function returns a data-dependent shape', it.loc)
            if x < 0:
                x += l.ndim + 1
            out.append(Arr(l.shape[:x] + (n,) + l.shape[x:], l.vs[:x] + (w,) + l.vs[x:], b))
        return rb(out)

    return Native('vmap', call)


# ----------------------------------------------------------------------------------------------------------------------
# differentiation
# ----------------------------------------------------------------------------------------------------------------------
def dnode(t, X, idx):
    """d t / d X[idx]  (t scalar)."""
    if X not in t.fs:
        return ZERO
    op = t.op
    if op == 'var':
        return ONE if t is X else ZERO
    if op == 'poly':
        out = ZERO
        for m, c in t.args:
            for i, (a, e) in enumerate(m):
                if X not in a.fs:
                    continue
                if a.op == 'ind':
                    continue
                rest = tuple(m[:i] + m[i + 1:])
                base = frompd({tuple(sorted(rest + (((a, e - 1),) if e != 1 else ()), key=lambda ae: ae[0].dig)): c * e})
                out = add(out, mul(base, dnode(a, X, idx)))
        return out
    if op == 'elem':
        B = t.args[0]
        if B is X:
            r = ONE
            for i, j in zip(t.args[1:], idx):
                r = mul(r, eq(i, j))
            return r
        if any(X in i.fs for i in t.args[1:]):
            raise Unmodelled('derivative through an index')
        if B.op == 'app':
            head, args = B.args[0], B.args[1]
            out = ZERO
            for pos, a in enumerate(args):
                if not isinstance(a, T):
                    if _dep(a, X):
                        raise Unmodelled('derivative through a structured argument')
                    continue
                if X not in a.fs:
                    continue
                ash = a.shape or ()
                Dn = mk('app', (f'D{pos}:{head}', args) + tuple(B.shape) + tuple(ash), 'f',
                        shape=tuple(B.shape) + tuple(ash))
                qs = [fresh(s) for s in ash]
                term = mul(elem(Dn, tuple(t.args[1:]) + tuple(qs)), dnode(elem(a, tuple(qs)) if ash else a, X, idx))
                for q, s in list(zip(qs, ash))[::-1]:
                    term = sum_(s, q, term)
                out = add(out, term)
            return out
        raise Unmodelled(f'derivative of {B.op}')
    if op == 'E':
        return mul(t, dnode(t.args[0], X, idx))
    if op == 'log':
        return div(dnode(t.args[0], X, idx), t.args[0])
    if op == 'grp':
        return dnode(t.args[0], X, idx)
    if op == 'abs':
        return mul(sgn(t.args[0]), dnode(t.args[0], X, idx))
    if op == 'sum':
        v = fresh(t.args[0], tag='s')
        return sum_(t.args[0], v, dnode(subst(t.args[1], {t.args[2]: v}), X, idx))
    if op == 'ind':
        return ZERO
    if op == 'fn':
        n = t.args[0]
        x = t.args[1]
        dx = dnode(x, X, idx)
        if n == 'sin':
            return mul(_trig('cos')(x), dx)
        if n == 'cos':
            return neg(mul(_trig('sin')(x), dx))
        if len(t.args) == 2:
            return mul(fn('D' + n, x), dx)
    raise Unmodelled(f'derivative of {op}')


def _dep(a, X):
    if isinstance(a, T):
        return X in a.fs
    if isinstance(a, tuple):
        return any(_dep(x, X) for x in a)
    return False


_gv = [0]


def grad_of(it, f, argnums, has_aux, with_value):
    def call(it, args, kwargs):
        args = list(args)
        if isinstance(argnums, (tuple, list)):
            ans = [a % len(args) for a in argnums]
            leaves, rbs = it.flatten([args[a] for a in ans])
            rb = lambda v: tuple(rbs(v))
        else:
            ans = [argnums % len(args)]
            leaves, rbs = it.flatten([args[ans[0]]])
            rb = lambda v: rbs(v)[0]
        xs = []
        for l in leaves:
            _gv[0] += 1
            xs.append(mk('var', (f'$d{_gv[0]}', len(l.shape)) + tuple(l.shape), 'f', shape=tuple(l.shape)))
        args2 = list(args)
        for a, v in zip(ans, rbs([of_node(x) for x in xs])):
            args2[a] = v
        val = it.call(f, args2, kwargs)
        aux = None
        if has_aux:
            val, aux = val
        val = lift(val)
        if val.ndim != 0:
            raise Definite('gradient of a non-scalar function', it.loc)
        m = {x: node_or_scalar(l) for x, l in zip(xs, leaves)}
        gl = []
        for x, l in zip(xs, leaves):
            vs = [fresh(s) for s in l.shape]
            d = dnode(val.body, x, tuple(vs))
            gl.append(Arr(l.shape, vs, subst(d, m)))
        g = rb(gl)
        if with_value:
            v = scalar(subst(val.body, m))
            if has_aux:
                return (v, vmapv(aux, lambda t: subst(t, m))), g
            return v, g
        if has_aux:
            return g, vmapv(aux, lambda t: subst(t, m))
        return g

    return Native('grad', call)


@reg('jax.grad')
@sig('fun', ('argnums', 0), ('has_aux', False))
def jgrad(it, fun, argnums, has_aux):
    return grad_of(it, fun, argnums, has_aux is True, False)


@reg('jax.value_and_grad')
@sig('fun', ('argnums', 0), ('has_aux', False))
def jvgrad(it, fun, argnums, has_aux):
    return grad_of(it, fun, argnums, has_aux is True, True)


@reg('jax.jacfwd', 'jax.jacrev', 'jax.jacobian')
@sig('fun', ('argnums', 0))
def jjac(it, fun, argnums):
    def call(it, args, kwargs):
        args = list(args)
        l = A(it, args[argnums])
        _gv[0] += 1
        X = mk('var', (f'$d{_gv[0]}', len(l.shape)) + tuple(l.shape), 'f', shape=tuple(l.shape))
        args[argnums] = of_node(X)
        val = lift(it.call(fun, args, kwargs))
        vs = [fresh(s) for s in l.shape]
        d = dnode(val.body, X, tuple(vs))
        return Arr(val.shape + l.shape, val.vs + tuple(vs), subst(d, {X: node_or_scalar(l)}))

    return Native('jac', call)


@reg('jax.hessian', 'jax.jvp', 'jax.vjp', 'jax.linearize')
def jhess(it, args, kwargs):
    raise Unmodelled('higher-order differentiation')


# ----------------------------------------------------------------------------------------------------------------------
# pytrees
# ----------------------------------------------------------------------------------------------------------------------
@reg('tree.map', 'tree.multimap')
def tree_map(it, args, kwargs):
    f, t0, rest = args[0], args[1], args[2:]
    l0, rb = it.flatten(t0)
    ls = [it.flatten(r)[0] for r in rest]
    return rb([it.call(f, [x] + [l[i] for l in ls], {}) for i, x in enumerate(l0)])


@reg('tree.leaves')
def tree_leaves(it, args, kwargs):
    return it.flatten(args[0])[0]


@reg('tree.flatten')
def tree_flatten(it, args, kwargs):
    l, rb = it.flatten(args[0])
    return l, Native('treedef', lambda it2, a, k: rb(a[0]))


@reg('tree.unflatten')
def tree_unflatten(it, args, kwargs):
    return it.call(args[0], [list(args[1])], {})


@reg('jax.flatten_util.ravel_pytree')
@sig('pytree')
def ravel_pytree(it, pytree):
    if hasattr(pytree, '_ravel'):
        return pytree._ravel(it)
    ls, rb = it.flatten(pytree)
    flat = concat([reshape(l, [size_of(l.shape)]) for l in ls], 0)
    offs = []
    o = ZERO
    for l in ls:
        offs.append(o)
        o = add(o, size_of(l.shape))

    def un(it2, a, k):
        x = A(it2, a[0])
        out = []
        for l, o in zip(ls, offs):
            out.append(reshape(index(x, (slice(scalar(o), scalar(add(o, size_of(l.shape)))),)), l.shape))
        return rb(out)

    return flat, Native('unravel', un)


@reg('optax.apply_updates')
@sig('params', 'updates')
def apply_updates(it, params, updates):
    return tree_map(it, [Native('add', lambda it2, a, k: ew(add, a[0], a[1])), params, updates], {})


@reg('jax.block_until_ready', 'jax.device_get', 'jax.device_put', 'copy.copy', 'copy.deepcopy')
def ident(it, args, kwargs):
    return args[0]


@reg('jax.eval_shape')
def eval_shape(it, args, kwargs):
    return it.call(args[0], args[1:], kwargs)


# ----------------------------------------------------------------------------------------------------------------------
# builtins
# ----------------------------------------------------------------------------------------------------------------------
@reg('len')
def b_len(it, args, kwargs):
    x = args[0]
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise Definite('len of a 0-d array', it.loc)
        if is_rest(x.shape[0]):
            raise Definite('len of a state of arbitrary rank', it.loc)
        return pydim(x.shape[0])
    if isinstance(x, _S):
        return pydim(x.n)
    if isinstance(x, SymRange):
        return pyint(x.length())
    if isinstance(x, (tuple, list)) and any(isinstance(y, StarDims) for y in x):
        r = const(len(x) - 1)
        for y in x:
            if isinstance(y, StarDims):
                r = add(r, rank_of_rest(y.rest))
        return scalar(r)
    if isinstance(x, (list, tuple, dict, str, set, range)):
        return len(x)
    if isinstance(x, Instance) and x.cls.lookup('__len__'):
        return it.call(it.getattr(x, '__len__'), [], {})
    if hasattr(x, '_len'):
        return x._len()
    raise Unmodelled('len')


@reg('range')
def b_range(it, args, kwargs):
    vals = []
    for a in args:
        if isinstance(a, Arr):
            c = ival(a.body)
            vals.append(c if c is not None else a.body)
        elif isinstance(a, int):
            vals.append(a)
        elif isinstance(a, Fr):
            raise Definite('range of a float', it.loc)
        else:
            raise Unmodelled('range')
    if all(isinstance(v, int) for v in vals):
        return range(*vals)
    for v in vals:
        if isinstance(v, T) and not host_only(v):
            raise Definite('Python loop bound depends on a traced array value', it.loc)
    vals = [const(v) if isinstance(v, int) else v for v in vals]
    if len(vals) == 1:
        return SymRange(ZERO, vals[0], ONE)
    return SymRange(vals[0], vals[1], vals[2] if len(vals) > 2 else ONE)


def zip_seqs(it, args):
    ls = [it.iter_list(a) for a in args]
    if all(l is not None for l in ls):
        return [tuple(t) for t in zip(*ls)]
    ss = [it.as_seq(a) if l is None else list_to_seq(l) for a, l in zip(args, ls)]
    n = ss[0].n
    for s in ss[1:]:
        e = known_eq(s.n, n)
        if e is not True:
            d = sign(sub(s.n, n))
            if d is not None and d >= 0:
                continue
            d2 = sign(sub(n, s.n))
            if d2 is not None and d2 >= 0:
                n = s.n
                continue
            raise Unmodelled('zip of sequences with unrelated lengths')
    v = fresh(n)
    return _S(n, v, tuple(s.at(v) for s in ss))


@reg('zip')
def b_zip(it, args, kwargs):
    return zip_seqs(it, args)


@reg('enumerate')
def b_enum(it, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get('start', 0)
    l = it.iter_list(args[0])
    if l is not None:
        if isinstance(start, int):
            return [(i + start, x) for i, x in enumerate(l)]
        return [(scalar(add(const(i), as_dim(start))), x) for i, x in enumerate(l)]
    s = it.as_seq(args[0])
    v = fresh(s.n)
    return _S(s.n, v, (scalar(add(v, as_dim(start))), s.at(v)))


@reg('map')
def b_map(it, args, kwargs):
    z = zip_seqs(it, args[1:])
    if isinstance(z, list):
        return [it.call(args[0], list(t), {}) for t in z]
    v = fresh(z.n)
    return _S(z.n, v, it.call(args[0], list(z.at(v)), {}))


@reg('filter')
def b_filter(it, args, kwargs):
    l = it.iter_list(args[1])
    if l is None:
        raise Unmodelled('filter')
    out = []
    for x in l:
        b = it.truth(it.call(args[0], [x], {}) if args[0] is not None else x)
        if b is True:
            out.append(x)
        elif b is not False:
            raise Unmodelled('filter')
    return out


@reg('list', 'tuple', 'iter')
def b_list(it, args, kwargs):
    if not args:
        return []
    l = it.iter_list(args[0])
    if l is None:
        return args[0] if isinstance(args[0], (SymRange, _S)) else it.as_seq(args[0])
    return list(l)


def b_tuple(it, args, kwargs):
    if not args:
        return ()
    l = it.iter_list(args[0])
    if l is None:
        return args[0] if isinstance(args[0], (SymRange, _S)) else it.as_seq(args[0])
    return tuple(l)


LIB['tuple'] = b_tuple


@reg('dict')
def b_dict(it, args, kwargs):
    d = {}
    if args:
        if isinstance(args[0], dict):
            d.update(args[0])
        else:
            for k, v in it.iter_list(args[0]):
                d[it.hkey(k)] = v
    d.update(kwargs)
    return d


@reg('set', 'frozenset')
def b_set(it, args, kwargs):
    return set(it.iter_list(args[0])) if args else set()


@reg('int')
def b_int(it, args, kwargs):
    x = args[0] if args else 0
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fr):
        return int(x)
    if isinstance(x, str):
        return int(x)
    x = A(it, x)
    if x.ndim:
        raise Definite('int() of an array', it.loc)
    return ew(trunc_, x)


@reg('float')
def b_float(it, args, kwargs):
    x = args[0]
    if isinstance(x, (int, Fr)):
        return Fr(x)
    if isinstance(x, str):
        return I.float_lit(float(x))
    return A(it, x)


@reg('bool')
def b_bool(it, args, kwargs):
    b = it.truth(args[0])
    return b if isinstance(b, bool) else scalar(b)


@reg('str', 'repr', 'format')
def b_str(it, args, kwargs):
    return fmt(args[0], args[1] if len(args) > 1 else '', '') if args else ''


@reg('abs')
def b_abs(it, args, kwargs):
    if isinstance(args[0], (int, Fr)):
        return abs(args[0])
    return ew(absv, A(it, args[0]))


def b_minmax(name):
    f = maxv if name == 'max' else minv

    def g(it, args, kwargs):
        if 'key' in kwargs:
            raise Unmodelled('max key')
        xs = it.iter_list(args[0]) if len(args) == 1 else list(args)
        if xs is None:
            s = lift(it.as_seq(args[0]))
            return reduce_(s, None, name)
        if all(isinstance(x, (int, Fr)) for x in xs):
            return max(xs) if name == 'max' else min(xs)
        r = A(it, xs[0])
        for x in xs[1:]:
            r = ew(f, r, A(it, x))
        return r

    return g


LIB['max'] = b_minmax('max')
LIB['min'] = b_minmax('min')


@reg('sum', 'math.fsum')
def b_sum(it, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get('start', 0)
    l = it.iter_list(args[0])
    if l is None:
        s = lift(it.as_seq(args[0]))
        return ew(add, reduce_(s, 0, 'sum'), A(it, start))
    acc = start
    import ast
    for x in l:
        acc = it.binop(ast.Add(), acc, x)
    return acc


@reg('any', 'all')
def b_any(it, args, kwargs):
    raise Unmodelled('any/all')


def b_anyall(isany):
    def g(it, args, kwargs):
        l = it.iter_list(args[0])
        if l is None:
            return reduce_(lift(it.as_seq(args[0])), None, 'any' if isany else 'all')
        acc = ZERO if isany else ONE
        for x in l:
            b = it.truth(x)
            b = const(int(b)) if isinstance(b, bool) else b
            acc = or_(acc, b) if isany else mul(acc, b)
        c = cval(acc)
        return bool(c) if c is not None else scalar(acc)

    return g


LIB['any'] = b_anyall(True)
LIB['all'] = b_anyall(False)


@reg('sorted')
def b_sorted(it, args, kwargs):
    l = it.iter_list(args[0])
    if l is None or 'key' in kwargs:
        raise Unmodelled('sorted')
    return sorted(l, reverse=kwargs.get('reverse', False))


@reg('reversed')
def b_reversed(it, args, kwargs):
    l = it.iter_list(args[0])
    if l is not None:
        return l[::-1]
    s = it.as_seq(args[0])
    v = fresh(s.n)
    return _S(s.n, v, s.at(sub(sub(s.n, ONE), v)))


@reg('isinstance')
def b_isinstance(it, args, kwargs):
    return isinstance_(it, args[0], args[1])


@reg('callable')
def b_callable(it, args, kwargs):
    return isinstance(args[0], (Func, Native, Opaque, Partial, Bound, Class, Ext)) or hasattr(args[0], '_call')


@reg('getattr')
def b_getattr(it, args, kwargs):
    try:
        return it.getattr(args[0], args[1])
    except (Definite, Unmodelled):
        if len(args) > 2:
            return args[2]
        raise


@reg('hasattr')
def b_hasattr(it, args, kwargs):
    try:
        it.getattr(args[0], args[1])
        return True
    except Definite:
        return False


@reg('setattr')
def b_setattr(it, args, kwargs):
    if isinstance(args[0], Instance):
        args[0].attrs[args[1]] = args[2]


@reg('print', 'warnings.warn', 'logging.info', 'jax.debug.print', 'jax.config.update', 'jax.debug.callback',
     'gc.collect')
def b_print(it, args, kwargs):
    return None


@reg('type')
def b_type(it, args, kwargs):
    x = args[0]
    if isinstance(x, Instance):
        return x.cls
    if isinstance(x, NT):
        return x.k
    raise Unmodelled('type()')


@reg('pow')
def b_pow(it, args, kwargs):
    import ast
    return it.binop(ast.Pow(), args[0], args[1])


@reg('round')
def b_round(it, args, kwargs):
    if isinstance(args[0], (int, Fr)) and len(args) == 1:
        return round(args[0])
    return ew(round_, A(it, args[0]))


LIB['np.round'] = lambda it, a, k: ew(round_, A(it, a[0]))


@reg('divmod')
def b_divmod(it, args, kwargs):
    import ast
    return it.binop(ast.FloorDiv(), args[0], args[1]), it.binop(ast.Mod(), args[0], args[1])


@reg('slice')
def b_slice(it, args, kwargs):
    return slice(*args)


@reg('next')
def b_next(it, args, kwargs):
    raise Unmodelled('next')


for _n in ('ValueError', 'NotImplementedError', 'TypeError', 'RuntimeError', 'KeyError', 'Exception', 'IndexError',
           'AssertionError'):
    LIB[_n] = (lambda n: lambda it, a, k: ('exc', n))(_n)


def elem_at(l, i):
    x = lift(list(l))
    return index(x, (i,))


@reg('itertools.product')
def it_product(it, args, kwargs):
    import itertools
    ls = [it.iter_list(a) for a in args]
    if any(l is None for l in ls):
        seqs = [a if isinstance(a, SymSeq) else None for a in args]
        if len(args) != 2 or any(q is None and l is None for q, l in zip(seqs, ls)):
            raise Unmodelled('product')
        n = [q.n if q is not None else const(len(l)) for q, l in zip(seqs, ls)]
        tot = mul(*n)
        k = fresh(tot)
        ix = (floordiv(k, n[1]), mod(k, n[1]))
        return SymSeq(tot, k, tuple(q.at(i) if q is not None else elem_at(l, i) for q, l, i in zip(seqs, ls, ix)))
    return [tuple(t) for t in itertools.product(*ls)]


@reg('itertools.chain', 'itertools.chain.from_iterable')
def it_chain(it, args, kwargs):
    out = []
    for a in args:
        l = it.iter_list(a)
        if l is None:
            raise Unmodelled('chain')
        out += l
    return out


@reg('operator.add')
def op_add(it, args, kwargs):
    import ast
    return it.binop(ast.Add(), args[0], args[1])


@reg('operator.mul')
def op_mul(it, args, kwargs):
    import ast
    return it.binop(ast.Mult(), args[0], args[1])


@reg('operator.itemgetter')
def op_ig(it, args, kwargs):
    return Native('ig', lambda it2, a, k: it2.getitem(a[0], args[0]))


@reg('typing.cast')
def ty_cast(it, args, kwargs):
    return args[1]


@reg('typing.NamedTuple', 'collections.namedtuple')
def namedtuple(it, args, kwargs):
    name = args[0]
    fields = args[1]
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    fields = [f if isinstance(f, str) else f[0] for f in fields]
    c = Class(name, [Ext('typing.NamedTuple')], {}, None, name)
    c.fields = [(f, False) for f in fields]
    return c


@reg('typing.TypeVar', 'typing.NewType')
def ty_other(it, args, kwargs):
    return Ext('typing.Any')


# ----------------------------------------------------------------------------------------------------------------------
# attributes of values
# ----------------------------------------------------------------------------------------------------------------------
def shape_tuple(x):
    return tuple(StarDims(d) if is_rest(d) else pydim(d) for d in x.shape)


def ndim_of(x):
    r = ZERO
    for d in x.shape:
        r = add(r, rank_of_rest(d) if is_rest(d) else ONE)
    return pyint(r)


ARR_METHODS = {'sum': 'np.sum', 'mean': 'np.mean', 'max': 'np.max', 'min': 'np.min', 'prod': 'np.prod', 'std': 'np.std',
               'var': 'np.var', 'any': 'np.any', 'all': 'np.all', 'cumsum': 'np.cumsum', 'cumprod': 'np.cumprod',
               'argmax': 'np.argmax', 'argmin': 'np.argmin', 'argsort': 'np.argsort', 'sort': 'np.sort',
               'dot': 'np.dot', 'take': 'np.take', 'clip': 'np.clip', 'round': 'np.round', 'repeat': 'np.repeat',
               'squeeze': 'np.squeeze', 'swapaxes': 'np.swapaxes', 'trace': 'np.trace', 'diagonal': 'np.diagonal',
               'ravel': 'np.ravel', 'flatten': 'np.ravel', 'searchsorted': 'np.searchsorted', 'conj': 'np.conj',
               'ptp': 'np.ptp'}


def value_attr(it, o, a):
    if isinstance(o, AtProxy):
        if o.idx is None:
            raise Unmodelled('.at without index')
        if a in ('set', 'add', 'multiply', 'mul', 'max', 'min', 'get', 'divide', 'power', 'apply'):
            def setter(it2, args, kwargs, o=o, a=a):
                if a == 'get':
                    return index(o.x, o.idx)
                v = A(it2, args[0]) if a != 'apply' else None
                if a == 'divide':
                    return at_set(o.x, o.idx, ew(lambda t: powq(t, -1), v), 'multiply')
                if a in ('power', 'apply'):
                    raise Unmodelled('.at[].' + a)
                return at_set(o.x, o.idx, v, 'multiply' if a == 'mul' else a)

            return Native('at.' + a, setter)
        raise Unmodelled(f'.at[].{a}')
    if isinstance(o, Arr):
        if a == 'shape':
            return shape_tuple(o)
        if a == 'ndim':
            return ndim_of(o)
        if a == 'size':
            return pyint(size_of(o.shape))
        if a == 'T':
            return transpose(o)
        if a == 'mT':
            return mT(it, [o], {})
        if a == 'at':
            return AtProxy(o)
        if a == 'real':
            return o
        if a == 'dtype':
            return Ext({'f': 'numpy.float32', 'i': 'numpy.int32', 'b': 'numpy.bool_', 'k': 'numpy.uint32'}[o.kind])
        if a == 'weak_type':
            return False
        if a == 'astype':
            return Native(a, lambda it2, args, kw: cast(o, args[0] if args else kw.get('dtype')))
        if a == 'reshape':
            def rs(it2, args, kw):
                s = args[0] if len(args) == 1 else tuple(args)
                return reshape(o, shape_list(expand_star(s)))
            return Native(a, rs)
        if a == 'transpose':
            def tr(it2, args, kw):
                if not args:
                    return transpose(o)
                return transpose(o, list(args[0]) if len(args) == 1 and isinstance(args[0], (tuple, list)) else list(args))
            return Native(a, tr)
        if a in ('item',):
            return Native(a, lambda it2, args, kw: squeeze(o) if o.ndim else o)
        if a in ('copy', 'block_until_ready', 'tolist', '__array__', 'view'):
            return Native(a, lambda it2, args, kw: o)
        if a in ARR_METHODS:
            return Native(a, lambda it2, args, kw: LIB[ARR_METHODS[a]](it2, [o] + list(args), kw))
        raise Definite(f'array has no attribute {a}', it.loc)
    if isinstance(o, list):
        if a == 'append':
            def app_(it2, args, kw):
                if isinstance(o, I.GrowList):
                    o.new.append(args[0])
                else:
                    o.append(args[0])
            return Native(a, app_)
        if a == 'extend':
            def ext_(it2, args, kw):
                l = it2.iter_list(args[0])
                if l is None:
                    raise Unmodelled('extend by symbolic sequence')
                o.extend(l)
            return Native(a, ext_)
        if a == 'pop':
            def pop(it2, args, kw):
                try:
                    return o.pop(*args)
                except IndexError:
                    raise Definite('pop from an empty list', it2.loc)
            return Native(a, pop)
        if a == 'insert':
            return Native(a, lambda it2, args, kw: o.insert(*args))
        if a == 'reverse':
            return Native(a, lambda it2, args, kw: o.reverse())
        if a == 'index':
            return Native(a, lambda it2, args, kw: o.index(*args))
        if a == 'copy':
            return Native(a, lambda it2, args, kw: list(o))
        if a == 'clear':
            return Native(a, lambda it2, args, kw: o.clear())
        if a == 'count':
            return Native(a, lambda it2, args, kw: o.count(args[0]))
    if isinstance(o, tuple):
        if a == 'index':
            return Native(a, lambda it2, args, kw: o.index(*args))
        if a == 'count':
            return Native(a, lambda it2, args, kw: o.count(*args))
    if isinstance(o, dict):
        if a == 'items':
            return Native(a, lambda it2, args, kw: list(o.items()))
        if a == 'keys':
            return Native(a, lambda it2, args, kw: list(o.keys()))
        if a == 'values':
            return Native(a, lambda it2, args, kw: list(o.values()))
        if a == 'get':
            return Native(a, lambda it2, args, kw: o.get(it2.hkey(args[0]), args[1] if len(args) > 1 else None))
        if a == 'update':
            def upd(it2, args, kw):
                for d in args:
                    o.update(d)
                o.update(kw)
            return Native(a, upd)
        if a == 'pop':
            def dpop(it2, args, kw):
                k = it2.hkey(args[0])
                if k in o:
                    return o.pop(k)
                if len(args) > 1:
                    return args[1]
                raise Definite(f'missing dictionary key {k!r}', it2.loc)
            return Native(a, dpop)
        if a == 'copy':
            return Native(a, lambda it2, args, kw: dict(o))
        if a == 'setdefault':
            return Native(a, lambda it2, args, kw: o.setdefault(it2.hkey(args[0]), args[1] if len(args) > 1 else None))
    if isinstance(o, (str, SymStr)):
        return str_attr(it, o, a)
    if isinstance(o, (SymRange, _S)) and a == 'append':
        raise Unmodelled('append to symbolic list')
    if isinstance(o, SymRange) and a in ('start', 'stop', 'step'):
        return scalar(getattr(o, a))
    if isinstance(o, range) and a in ('start', 'stop', 'step'):
        return getattr(o, a)
    if isinstance(o, slice) and a in ('start', 'stop', 'step'):
        return getattr(o, a)
    if isinstance(o, Partial):
        if a == 'func':
            return o.f
        if a == 'args':
            return tuple(o.args)
        if a == 'keywords':
            return o.kwargs
    if hasattr(o, '_getattr'):
        return o._getattr(it, a)
    if isinstance(o, (int, Fr)):
        if a in ('real',):
            return o
        if a == 'shape':
            raise Definite('number has no shape', it.loc)
        if a == 'is_integer':
            return Native(a, lambda it2, args, kw: Fr(o).denominator == 1)
        raise Definite(f'number has no attribute {a}', it.loc)
    if o is None:
        raise Definite(f'None has no attribute {a}', it.loc)
    if isinstance(o, (Native, Bound, Opaque)) and a in ('__name__', '__doc__'):
        return getattr(o, 'name', 'f')
    raise Unmodelled(f'attribute {a} of {type(o).__name__}')


def expand_star(s):
    """Resolve *sequence arguments inside a shape."""
    if isinstance(s, (tuple, list)):
        out = []
        for x in s:
            if isinstance(x, StarArg):
                out.append(x.seq)
            else:
                out.append(x)
        return tuple(out) if len(out) != 1 else (out[0] if not isinstance(out[0], _S) else tuple(out))
    return s


def str_attr(it, o, a):
    if a == 'format':
        return Native(a, lambda it2, args, kw: SymStr([o] + list(args)))
    if isinstance(o, str):
        if a in ('split', 'strip', 'lower', 'upper', 'replace', 'startswith', 'endswith', 'join', 'rsplit', 'lstrip',
                 'rstrip', 'title', 'isdigit', 'zfill', 'count', 'find', 'partition', 'rpartition', 'removeprefix',
                 'removesuffix', 'splitlines', 'index', 'capitalize'):
            def f(it2, args, kw):
                if a == 'join':
                    l = it2.iter_list(args[0])
                    parts = []
                    for i, x in enumerate(l):
                        if i:
                            parts.append(o)
                        parts.append(x)
                    return cat_str(parts)
                return getattr(o, a)(*args, **kw)

            return Native(a, f)
    if isinstance(o, SymStr):
        if a in ('split', 'rsplit'):
            def sp(it2, args, kw):
                sep = args[0] if args else None
                if not isinstance(sep, str):
                    raise Unmodelled('split of symbolic string')
                maxs = args[1] if len(args) > 1 else kw.get('maxsplit', -1)
                out = [[]]
                for p in o.parts:
                    if isinstance(p, str):
                        bits = p.split(sep)
                        out[-1].append(bits[0])
                        for b in bits[1:]:
                            out.append([b])
                    else:
                        out[-1].append(p)
                if maxs >= 0 and len(out) > maxs + 1:
                    raise Unmodelled('maxsplit')
                return [cat_str(q) for q in out]

            return Native(a, sp)
        if a in ('startswith', 'endswith'):
            def sw(it2, args, kw):
                p = o.parts[0] if a == 'startswith' else o.parts[-1]
                t = args[0]
                if isinstance(p, str) and isinstance(t, str):
                    if len(p) >= len(t):
                        return p.startswith(t) if a == 'startswith' else p.endswith(t)
                    if (not t.startswith(p) if a == 'startswith' else not t.endswith(p)):
                        return False
                raise Unmodelled('startswith on symbolic string')

            return Native(a, sw)
        if a in ('strip', 'lower'):
            return Native(a, lambda it2, args, kw: o)
        if a in ('removeprefix', 'removesuffix', 'replace', 'partition'):
            def rp(it2, args, kw):
                t = args[0]
                ps = list(o.parts)
                if a == 'removeprefix' and isinstance(ps[0], str) and ps[0].startswith(t):
                    ps[0] = ps[0][len(t):]
                    return cat_str(ps)
                if a == 'removesuffix' and isinstance(ps[-1], str) and ps[-1].endswith(t):
                    ps[-1] = ps[-1][:-len(t)]
                    return cat_str(ps)
                if a == 'replace':
                    return cat_str([p.replace(t, args[1]) if isinstance(p, str) else p for p in ps])
                raise Unmodelled(a)

            return Native(a, rp)
    raise Unmodelled(f'string method {a}')


def instance_ext_attr(it, o, a):
    from . import flaxlib
    return flaxlib.attr(it, o, a)


# int() of a symbolic string part
_b_int0 = LIB['int']


def b_int2(it, args, kwargs):
    x = args[0] if args else 0
    if isinstance(x, SymStr):
        if len(x.parts) == 1 and isinstance(x.parts[0], T):
            return scalar(x.parts[0])
        raise Unmodelled('int of symbolic string')
    return _b_int0(it, args, kwargs)


LIB['int'] = b_int2


@reg('einops.rearrange')
def rearrange(it, args, kwargs):
    x = A(it, args[0])
    pat = args[1]
    l, r = [s.strip() for s in pat.split('->')]

    def parse(s):
        out = []
        for tok in re.findall(r'\([^)]*\)|\S+', s):
            out.append(tok[1:-1].split() if tok[0] == '(' else [tok])
        return out

    L, R = parse(l), parse(r)
    if any('...' in g for g in L + R):
        raise Unmodelled('einops ellipsis')
    if len(L) != x.ndim:
        raise Definite(f'rearrange pattern {pat} against rank {x.ndim}', it.loc)
    size = {k: as_dim(v) for k, v in kwargs.items()}
    full = []
    for g, d in zip(L, x.shape):
        unk = [n for n in g if n not in size and n != '1']
        kn = ONE
        for n in g:
            if n in size:
                kn = mul(kn, size[n])
        if len(unk) == 1:
            q = div(d, kn)
            if any(e < 0 for m in pd(q) for _, e in m) or any(c.denominator != 1 for c in pd(q).values()):
                q = floordiv(d, kn)
            size[unk[0]] = q
        elif len(unk) > 1:
            raise Definite('rearrange with several unknown extents', it.loc)
        elif known_eq(kn, d) is not True:
            raise Definite('rearrange extent mismatch', it.loc)
        full += [n for n in g]
    y = reshape(x, [ONE if n == '1' else size[n] for n in full])
    names = [n for n in full]
    rn = [n for g in R for n in g]
    if sorted(n for n in rn if n != '1') != sorted(n for n in names if n != '1'):
        raise Definite('rearrange axes differ', it.loc)
    # drop unit axes, permute, re-add
    keep = [i for i, n in enumerate(names) if n != '1']
    y = Arr([y.shape[i] for i in keep], [y.vs[i] for i in keep], y.at([v if i in keep else ZERO for i, v in enumerate(y.vs)]))
    names = [names[i] for i in keep]
    y = transpose(y, [names.index(n) for n in rn if n != '1'])
    return reshape(y, [size_of([ONE if n == '1' else size[n] for n in g]) for g in R])


from . import flaxlib  # noqa: E402  (registers the layers)
