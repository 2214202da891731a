"""Array values: symbolic shape + element expression over index variables ("pull arrays")."""
from fractions import Fraction as Fr
from .terms import *
from . import terms as tm


class Arr:
    __slots__ = ('shape', 'vs', 'body')

    def __init__(self, shape, vs, body):
        self.shape, self.vs, self.body = tuple(shape), tuple(vs), body

    @property
    def kind(self):
        return self.body.kind

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, idx):
        idx = tuple(idx)
        if idx == self.vs:
            return self.body
        return subst(self.body, dict(zip(self.vs, idx)))

    def node(self):
        return lam(self.shape, self.vs, self.body)

    def __repr__(self):
        return f'Arr{tuple(pp(s) for s in self.shape)}: {pp(self.node(), 6)}'


class SymSeq:
    """A Python list / iterator of symbolic length n with element value(v)."""

    def __init__(self, n, v, value, kind='list'):
        self.n, self.v, self.value = n, v, value
        self.kind = kind

    def at(self, i):
        return vmapv(self.value, lambda t: subst(t, {self.v: i}))


class StarDims:
    """The (unknown-rank) trailing part of a shape tuple."""

    def __init__(self, rest):
        self.rest = rest

    def __eq__(self, o):
        return isinstance(o, StarDims) and o.rest is self.rest

    def __hash__(self):
        return hash(self.rest)


def scalar(t):
    return Arr((), (), t)


def build(shape, f):
    """Array from an index function f(*idx) -> scalar node."""
    shape = tuple(shape)
    vs = tuple(fresh(s) for s in shape)
    return Arr(shape, vs, f(*vs))


def of_node(A):
    if A.op in ('poly', 'elem', 'ind') or A.shape is None or A.shape == ():
        if A.shape == () and A.op in tm.ATOM_ARR:
            return scalar(elem(A, ()))
        return scalar(A)
    return build(A.shape, lambda *i: elem(A, i))


def is_rest(d):
    return tm.PROPS.get(d, {}).get('rest', False)


def rest_dim(name):
    t = mk('var', (name, 0), 'i', shape=())
    tm.PROPS[t] = {'min': 1, 'rest': True}
    return t


def rank_of_rest(d):
    t = mk('rank', (d,), 'i', shape=())
    tm.PROPS[t] = {'min': 0, 'nonneg': True}
    return t


def vmapv(v, f):
    """Map a scalar-node function over every node of a Python-level value structure."""
    if isinstance(v, Arr):
        nb = f(v.body)
        ns = tuple(f(s) for s in v.shape)
        if nb is v.body and ns == v.shape:
            return v
        if ns == v.shape:
            return Arr(v.shape, v.vs, nb)
        nvs = tuple(fresh(s) for s in ns)
        return Arr(ns, nvs, subst(nb, dict(zip(v.vs, nvs))))
    if isinstance(v, T):
        return f(v)
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return type(v)(*[vmapv(x, f) for x in v])
    if isinstance(v, tuple):
        r = [vmapv(x, f) for x in v]
        return type(v)(v.k, r) if hasattr(v, 'k') else tuple(r)
    if isinstance(v, list):
        return [vmapv(x, f) for x in v]
    if isinstance(v, dict):
        return {k: vmapv(x, f) for k, x in v.items()}
    if isinstance(v, SymSeq):
        w = fresh(f(v.n))
        inner = vmapv(v.value, lambda t: subst(t, {v.v: w}))
        return SymSeq(f(v.n), w, vmapv(inner, f), v.kind)
    if hasattr(v, '_vmapv'):
        return v._vmapv(f)
    return v


def lift(x):
    """Python-level value -> Arr."""
    if isinstance(x, Arr):
        return x
    if isinstance(x, (bool, int, Fr)):
        return scalar(const(x))
    if isinstance(x, float):
        if x == float('inf'):
            return scalar(INF)
        if x == float('-inf'):
            return scalar(neg(INF))
        return scalar(const(Fr(repr(x))))
    if isinstance(x, T):
        return of_node(x)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return Arr((ZERO,), (fresh(ZERO),), ZERO)
        if any(isinstance(y, SymSeq) for y in x) and not all(isinstance(y, SymSeq) for y in x):
            raise Unmodelled('ragged symbolic list')
        if len(x) > 16:
            r = lift_grid(x)
            if r is not None:
                return r
        return stack([lift(y) for y in x], 0)
    if isinstance(x, SymSeq):
        inner = lift(x.value)
        v = fresh(x.n)
        b = subst(inner.body, {x.v: v})
        return Arr((x.n,) + inner.shape, (v,) + inner.vs, b)
    if hasattr(x, '_lift'):
        return x._lift()
    raise Unmodelled(f'cannot use {type(x).__name__} as an array')


def lift_grid(x):
    """A long literal list of integers (or integer tuples) that enumerates a grid: closed form of its index."""
    if all(type(y) is int for y in x):
        cols = [x]
    elif all(isinstance(y, (tuple, list)) and len(y) == len(x[0]) and all(type(z) is int for z in y) for y in x):
        cols = list(zip(*x))
    else:
        return None
    n = len(x)
    v = fresh(const(n))
    fits = []
    for c in cols:
        f = grid_fit(c)
        if f is None:
            return None
        run, per, a, b = f
        t = floordiv(v, const(run)) if run > 1 else v
        if per * run < n:
            t = mod(t, const(per))
        fits.append(add(mul(const(a), t), const(b)))
    if type(x[0]) is int:
        return Arr((const(n),), (v,), fits[0])
    j = fresh(const(len(cols)))
    body = ZERO
    for i, f in enumerate(fits):
        body = add(body, mul(eq(j, const(i)), f))
    return Arr((const(n), const(len(cols))), (v, j), body)


def grid_fit(c):
    """c[k] = b + a * ((k // run) mod per)"""
    n = len(c)
    run = next((i for i in range(n) if c[i] != c[0]), n)
    if run == n:
        return n, 1, 0, c[0]
    w = c[::run]
    a = w[1] - w[0]
    per = next((i for i in range(1, len(w)) if w[i] != w[0] + a * i), len(w))
    if all(c[k] == c[0] + a * ((k // run) % per) for k in range(n)):
        return run, per, a, c[0]
    return None


def known_eq(a, b):
    """Symbolic dimension equality: True / False (definitely different) / None."""
    if a is b:
        return True
    d = sub(a, b)
    c = cval(d)
    if c is not None:
        return c == 0
    s = sign(d)
    if s in (1, -1) or sign(neg(d)) == 1:
        return False
    return None


def bshape(shapes):
    r = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(r):
        d = ONE
        for s in shapes:
            j = k - (r - len(s))
            if j < 0:
                continue
            x = s[j]
            if x is d or x is ONE:
                continue
            if d is ONE:
                d = x
                continue
            e = known_eq(x, d)
            if e is not True:
                raise Definite(f'shape mismatch: {tuple(map(tuple_pp, shapes))}')
        out.append(d)
    # a singleton may stand against an unknown-rank block only if nothing but singletons lies to its left
    for s in shapes:
        j0 = r - len(s)
        for j, x in enumerate(s):
            if is_rest(out[j0 + j]) and x is ONE and any(y is not ONE for y in s[:j]):
                raise Definite('singleton axis aligned against a state block of arbitrary rank')
    return tuple(out)


def tuple_pp(s):
    return '(' + ','.join(pp(x, 3) for x in s) + ')'


def bindex(a, shape, vs):
    """Index vars of `a` when broadcast into `shape` with index variables vs."""
    off = len(shape) - len(a.shape)
    idx = []
    for j, d in enumerate(a.shape):
        idx.append(vs[off + j] if not (d is ONE and shape[off + j] is not ONE) else ZERO)
    return tuple(idx)


def ew(f, *xs):
    xs = [lift(x) for x in xs]
    if len(xs) == 1:
        x = xs[0]
        return Arr(x.shape, x.vs, f(x.body))
    shape = bshape([x.shape for x in xs])
    vs = tuple(fresh(s) for s in shape)
    return Arr(shape, vs, f(*[x.at(bindex(x, shape, vs)) for x in xs]))


def broadcast_to(x, shape):
    x = lift(x)
    sh = bshape([x.shape, tuple(shape)])
    vs = tuple(fresh(s) for s in sh)
    return Arr(sh, vs, x.at(bindex(x, sh, vs)))


def _num(x):
    return x.body


def stack(xs, axis=0):
    xs = [lift(x) for x in xs]
    if isinstance(axis, int) and axis < 0:
        axis += xs[0].ndim + 1
    shape = bshape([x.shape for x in xs])
    for x in xs:
        if len(x.shape) != len(shape):
            raise Definite('stack of arrays with different ranks')
    n = const(len(xs))
    out = shape[:axis] + (n,) + shape[axis:]
    vs = tuple(fresh(s) for s in out)
    j = vs[axis]
    rest = vs[:axis] + vs[axis + 1:]
    if len(xs) == 1:
        return Arr(out, vs, xs[0].at(rest))
    r = xs[-1].at(rest)
    for k in range(len(xs) - 2, -1, -1):
        r = ite(lt(j, const(k + 1)), xs[k].at(rest), r)
    return Arr(out, vs, r)


def norm_axis(axis, nd):
    if axis < 0:
        axis += nd
    if not 0 <= axis < nd:
        raise Definite(f'axis out of range for rank {nd}')
    return axis


def concat(xs, axis=0):
    xs = [lift(x) for x in xs]
    nd = xs[0].ndim
    for x in xs:
        if x.ndim != nd:
            raise Definite('concatenate of arrays with different ranks')
    axis = norm_axis(axis, nd)
    if is_rest(xs[0].shape[axis]):
        raise Definite('concatenation along part of a state block of arbitrary rank')
    for d in range(nd):
        if d != axis:
            for x in xs[1:]:
                if known_eq(x.shape[d], xs[0].shape[d]) is not True:
                    raise Definite(f'concatenate shape mismatch {tuple_pp(x.shape)} {tuple_pp(xs[0].shape)}')
    xs = [x for x in xs if x.shape[axis] is not ZERO] or xs[:1]
    total = add(*[x.shape[axis] for x in xs], ZERO)
    out = list(xs[0].shape)
    out[axis] = total
    vs = tuple(fresh(s) for s in out)
    v = vs[axis]
    offs = []
    o = ZERO
    for x in xs:
        offs.append(o)
        o = add(o, x.shape[axis])

    def el(x, o):
        return x.at(vs[:axis] + (sub(v, o),) + vs[axis + 1:])

    r = el(xs[-1], offs[-1])
    for x, o, o2 in reversed(list(zip(xs[:-1], offs[:-1], offs[1:]))):
        r = ite(lt(v, o2), el(x, o), r)
    return Arr(out, vs, r)


def expand_dims(x, axes):
    x = lift(x)
    if isinstance(axes, int):
        axes = [axes]
    nd = x.ndim + len(axes)
    axes = sorted(norm_axis(a, nd) for a in axes)
    shape, vs = list(x.shape), list(x.vs)
    for a in axes:
        shape.insert(a, ONE)
        vs.insert(a, fresh(ONE))
    return Arr(shape, vs, x.body)


def squeeze(x, axes=None):
    x = lift(x)
    if axes is None:
        axes = [i for i, d in enumerate(x.shape) if d is ONE]
    axes = [norm_axis(a, x.ndim) for a in axes]
    idx = [ZERO if i in axes else v for i, v in enumerate(x.vs)]
    b = x.at(idx)
    keep = [i for i in range(x.ndim) if i not in axes]
    return Arr([x.shape[i] for i in keep], [x.vs[i] for i in keep], b)


def transpose(x, perm=None):
    x = lift(x)
    if perm is None:
        perm = list(range(x.ndim))[::-1]
    perm = [norm_axis(p, x.ndim) for p in perm]
    return Arr([x.shape[p] for p in perm], [x.vs[p] for p in perm], x.body)


def size_of(shape):
    r = ONE
    for d in shape:
        r = mul(r, d)
    return r


def reshape(x, new):
    x = lift(x)
    new = list(new)
    if any(d is None for d in new):
        known = size_of([d for d in new if d is not None])
        q = div(size_of(x.shape), known)
        for m in pd(q):
            for a, e in m:
                if e < 0:
                    raise Unmodelled('reshape with undetermined extent')
        new = [q if d is None else d for d in new]
    if known_eq(size_of(x.shape), size_of(new)) is not True:
        raise Definite(f'reshape {tuple_pp(x.shape)} -> {tuple_pp(new)}')
    vs = tuple(fresh(s) for s in new)
    idx = [None] * x.ndim
    i = j = 0
    while i < x.ndim or j < len(new):
        # start a group
        gi, gj = i, j
        if i < x.ndim and j < len(new) and known_eq(x.shape[i], new[j]) is True:
            idx[i] = vs[j]
            i += 1
            j += 1
            continue
        if i < x.ndim and x.shape[i] is ONE:
            idx[i] = ZERO
            i += 1
            continue
        if j < len(new) and new[j] is ONE:
            j += 1
            continue
        po = x.shape[i] if i < x.ndim else ONE
        pn = new[j] if j < len(new) else ONE
        i += 1
        j += 1
        while known_eq(po, pn) is not True:
            s = sign(sub(po, pn))
            if s == 1 and j < len(new):
                pn = mul(pn, new[j])
                j += 1
            elif (s == -1 or s is None or j >= len(new)) and i < x.ndim:
                po = mul(po, x.shape[i])
                i += 1
            elif j < len(new):
                pn = mul(pn, new[j])
                j += 1
            else:
                raise Unmodelled('reshape grouping')
        flat = ZERO
        for q in range(gj, j):
            flat = add(mul(flat, new[q]), vs[q])
        # unflatten
        for q in range(i - 1, gi - 1, -1):
            if q == gi:
                idx[q] = flat
            else:
                idx[q] = mod(flat, x.shape[q])
                flat = floordiv(flat, x.shape[q])
    return Arr(new, vs, x.at(idx))


def pydim(t):
    c = ival(t)
    return c if c is not None else scalar(t)


def as_dim(v):
    """Python-level integer -> node."""
    if isinstance(v, bool):
        return const(int(v))
    if isinstance(v, int):
        return const(v)
    if isinstance(v, Fr) and v.denominator == 1:
        return const(v)
    if isinstance(v, Arr) and v.ndim == 0:
        return v.body
    if isinstance(v, T):
        return v
    if isinstance(v, Fr):
        raise Definite(f'non-integer extent {v}')
    raise Unmodelled(f'extent {v!r}')


def shape_list(shp):
    """Python-level shape -> list of dim nodes (None for -1)."""
    if isinstance(shp, SymSeq):
        shp = (shp,)
    if isinstance(shp, (int, Arr)) and not (isinstance(shp, Arr) and shp.ndim == 1):
        shp = (shp,)
    if isinstance(shp, Arr):
        n = ival(shp.shape[0])
        if n is None:
            raise Unmodelled('symbolic shape vector')
        shp = [scalar(shp.at((const(i),))) for i in range(n)]
    out = []
    for s in shp:
        if isinstance(s, StarDims):
            out.append(s.rest)
        elif isinstance(s, SymSeq):
            # [1] * rank : one singleton pseudo-axis per unknown-rank block
            if isinstance(s.value, int) and s.value == 1 or isinstance(s.value, Arr) and s.value.body is ONE:
                from .lib import rank_axes
                out += [ONE] * rank_axes(s.n)
            else:
                raise Unmodelled('symbolic shape tuple')
        elif isinstance(s, int) and s == -1:
            out.append(None)
        else:
            out.append(as_dim(s))
    return out


def index(x, items):
    x = lift(x)
    if not isinstance(items, tuple):
        items = (items,)
    items = [lift(i) if isinstance(i, (list, SymSeq)) else i for i in items]
    nreal = sum(1 for i in items if i is not None and i is not Ellipsis)
    if nreal > x.ndim:
        raise Definite('too many indices')
    full = []
    seen = False
    for i in items:
        if i is Ellipsis:
            if seen:
                raise Definite('two ellipses')
            seen = True
            full += [slice(None)] * (x.ndim - nreal)
        else:
            full.append(i)
    if not seen:
        full += [slice(None)] * (x.ndim - nreal)
    out_shape, out_vs = [], []
    src = []
    adv = []  # (src position, Arr)
    adv_at = None
    adv_gap = False
    last_adv = None
    d = 0
    for pos, it in enumerate(full):
        if it is None:
            out_shape.append(ONE)
            out_vs.append(fresh(ONE))
            continue
        n = x.shape[d]
        if is_rest(n) and not (isinstance(it, slice) and it == slice(None)):
            raise Definite('indexing into part of a state block of arbitrary rank')
        if isinstance(it, slice):
            st, ln, sp = norm_slice(it, n)
            v = fresh(ln)
            src.append(add(st, mul(const(sp), v)) if not (st is ZERO and sp == 1) else v)
            out_shape.append(ln)
            out_vs.append(v)
        else:
            a = lift(it)
            if a.kind == 'b' and a.ndim > 0:
                raise Unmodelled('boolean mask indexing')
            if a.ndim == 0:
                src.append(wrap_index(a.body, n))
            else:
                if adv_at is None:
                    adv_at = len(out_shape)
                elif last_adv != pos - 1:
                    adv_gap = True
                last_adv = pos
                src.append(('adv', len(adv)))
                adv.append((a, n))
        d += 1
    if adv:
        ash = bshape([a.shape for a, _ in adv])
        avs = tuple(fresh(s) for s in ash)
        p = 0 if adv_gap else adv_at
        out_shape[p:p] = list(ash)
        out_vs[p:p] = list(avs)
        src = [wrap_index(adv[s[1]][0].at(bindex(adv[s[1]][0], ash, avs)), adv[s[1]][1])
               if isinstance(s, tuple) else s for s in src]
    return Arr(out_shape, out_vs, x.at(src))


def wrap_index(t, n):
    c = ival(t)
    if c is not None and c < 0:
        r = add(n, t)
        if sign(r) == -1:
            raise Definite('index out of range')
        return r
    if c is not None:
        if nonpos_strict(sub(n, add(t, ONE))):
            raise Definite(f'index {c} out of range for axis of size {pp(n)}')
        return t
    if t.kind == 'f':
        raise Definite('non-integer index')
    # affine in a symbolic extent with negative sign, e.g. -k
    s = sign(t)
    if s == -1:
        return add(n, t)
    return t


def nonpos_strict(t):
    return sign(t) == -1


def norm_slice(s, n):
    step = 1 if s.step is None else s.step
    if isinstance(step, Arr):
        c = ival(step.body)
        if c is None:
            # symbolic positive stride
            st = ZERO if s.start is None else as_dim(s.start)
            stop = n if s.stop is None else as_dim(s.stop)
            sp = step.body
            ln = floordiv(sub(add(sub(stop, st), sp), ONE), sp)
            raise Unmodelled('symbolic stride')
        step = c

    def end(v, default):
        if v is None:
            return default
        t = as_dim(v)
        c = ival(t)
        if c is not None and c < 0:
            return add(n, t)
        if c is None and sign(t) == -1:
            return add(n, t)
        return t

    if step > 0:
        st = end(s.start, ZERO)
        sp = end(s.stop, n)
        if sign(sub(n, sp)) == -1:
            sp = n
        if sign(st) == -1:
            st = ZERO
        if sign(sp) == -1:
            sp = ZERO
        ln = sub(sp, st)
        if step != 1:
            ln = floordiv(add(ln, const(step - 1)), const(step))
    else:
        st = end(s.start, sub(n, ONE))
        if sign(sub(n, add(st, ONE))) == -1:
            st = sub(n, ONE)
        sp = neg(ONE) if s.stop is None else end(s.stop, None)
        ln = sub(st, sp)
        if step != -1:
            ln = floordiv(add(ln, const(-step - 1)), const(-step))
    if sign(ln) == -1:
        ln = ZERO
    return st, ln, step


def reduce_axes(x, axis):
    """Normalised list of pseudo-axes for an axis argument."""
    if axis is None:
        return list(range(x.ndim))
    from .interp import SymRange
    if isinstance(axis, SymRange):
        st = ival(axis.start)
        ln = sub(axis.stop, axis.start)
        if st is not None and axis.step is ONE:
            # covers exactly one rest block?
            p = st
            axes = []
            while ln is not ZERO and p < x.ndim:
                if is_rest(x.shape[p]):
                    ln = sub(ln, rank_of_rest(x.shape[p]))
                else:
                    ln = sub(ln, ONE)
                axes.append(p)
                p += 1
                if ival(ln) is not None and ival(ln) <= 0:
                    break
            if ln is ZERO:
                return axes
        raise Definite('reduction over the wrong block of axes for states of arbitrary rank')
    if isinstance(axis, SymSeq):
        raise Unmodelled('symbolic axis list')
    axes = axis if isinstance(axis, (list, tuple)) else [axis]
    out = []
    rest_pos = [i for i, d in enumerate(x.shape) if is_rest(d)]
    for a in axes:
        if isinstance(a, Arr):
            a = ival(a.body)
        if not isinstance(a, int):
            raise Unmodelled('symbolic axis')
        if rest_pos:
            rp = rest_pos[0]
            if a >= 0 and a < rp:
                out.append(a)
            elif a < 0 and a >= -(x.ndim - 1 - rp):
                out.append(a + x.ndim)
            else:
                raise Definite('axis addresses only part of a state block of arbitrary rank')
        else:
            out.append(norm_axis(a, x.ndim))
    return sorted(set(out))


def reduce_(x, axis, op, keepdims=False):
    x = lift(x)
    axes = reduce_axes(x, axis)
    b = x.body
    for a in axes[::-1]:
        if op == 'sum':
            b = sum_(x.shape[a], x.vs[a], b)
        else:
            b = red(op, x.shape[a], x.vs[a], b)
    keep = [i for i in range(x.ndim) if i not in axes]
    r = Arr([x.shape[i] for i in keep], [x.vs[i] for i in keep], b)
    if keepdims:
        r = expand_dims(r, axes)
    return r


def mean(x, axis=None, keepdims=False):
    x = lift(x)
    axes = reduce_axes(x, axis)
    n = size_of([x.shape[a] for a in axes])
    return ew(lambda t: div(t, n), reduce_(x, axes, 'sum', keepdims))


def matmul(a, b):
    a, b = lift(a), lift(b)
    if a.ndim == 0 or b.ndim == 0:
        raise Definite('matmul of scalar')
    av, bv = a.ndim == 1, b.ndim == 1
    if av:
        a = expand_dims(a, 0)
    if bv:
        b = expand_dims(b, 1)
    if known_eq(a.shape[-1], b.shape[-2]) is not True:
        raise Definite(f'matmul shape mismatch {tuple_pp(a.shape)} @ {tuple_pp(b.shape)}')
    lead = bshape([a.shape[:-2], b.shape[:-2]])
    lvs = tuple(fresh(s) for s in lead)
    i, j = fresh(a.shape[-2]), fresh(b.shape[-1])
    k = fresh(a.shape[-1])
    la = Arr(a.shape[:-2], a.vs[:-2], a.body)
    lb = Arr(b.shape[:-2], b.vs[:-2], b.body)
    ea = a.at(bindex(la, lead, lvs) + (i, k))
    eb = b.at(bindex(lb, lead, lvs) + (k, j))
    r = Arr(lead + (a.shape[-2], b.shape[-1]), lvs + (i, j), sum_(a.shape[-1], k, mul(ea, eb)))
    if av:
        r = squeeze(r, [r.ndim - 2])
    if bv:
        r = squeeze(r, [r.ndim - 1])
    return r


def at_set(x, items, val, mode='set'):
    """x.at[items].set(val) / .add / ..."""
    x = lift(x)
    val = lift(val)
    if not isinstance(items, tuple):
        items = (items,)
    items = [lift(i) if isinstance(i, (list, SymSeq)) else i for i in items]
    nreal = sum(1 for i in items if i is not None and i is not Ellipsis)
    full = []
    seen = False
    for i in items:
        if i is Ellipsis:
            seen = True
            full += [slice(None)] * (x.ndim - nreal)
        else:
            full.append(i)
    if not seen:
        full += [slice(None)] * (x.ndim - nreal)
    conds = []
    tgt_shape, tgt_idx = [], []
    scat = None
    for d, it in enumerate(full):
        n, v = x.shape[d], x.vs[d]
        if it is None:
            raise Unmodelled('newaxis in scatter')
        if is_rest(n) and not (isinstance(it, slice) and it == slice(None)):
            raise Definite('scatter into part of a state block of arbitrary rank')
        if isinstance(it, slice):
            st, ln, sp = norm_slice(it, n)
            if sp == 1:
                if st is not ZERO:
                    conds.append(le(st, v))
                if known_eq(add(st, ln), n) is not True:
                    conds.append(lt(v, add(st, ln)))
                tgt_idx.append(sub(v, st))
            elif sp == -1:
                conds.append(le(v, st))
                conds.append(lt(sub(st, ln), v))
                tgt_idx.append(sub(st, v))
            else:
                conds.append(eq(mod(sub(v, st), const(sp)), ZERO))
                conds.append(le(st, v))
                tgt_idx.append(floordiv(sub(v, st), const(sp)))
            tgt_shape.append(ln)
        else:
            a = lift(it)
            if a.ndim == 0:
                conds.append(eq(v, wrap_index(a.body, n)))
            elif a.ndim == 1 and scat is None:
                q = fresh(a.shape[0])
                scat = (d, a, q)
                tgt_shape.append(a.shape[0])
                tgt_idx.append(q)
            else:
                raise Unmodelled('multi-array scatter')
    sh = bshape([tuple(tgt_shape), val.shape])
    if len(sh) != len(tgt_shape):
        raise Definite('scatter value shape mismatch')
    for a, b in zip(sh, tgt_shape):
        if known_eq(a, b) is not True:
            raise Definite(f'scatter value shape mismatch {tuple_pp(val.shape)} into {tuple_pp(tgt_shape)}')
    off = len(tgt_shape) - val.ndim
    vi = [ZERO if (val.shape[j] is ONE and tgt_shape[off + j] is not ONE) else tgt_idx[off + j]
          for j in range(val.ndim)]
    new = val.at(vi)
    if mode == 'add':
        upd = lambda old: add(old, new)
    elif mode == 'set':
        upd = lambda old: new
    elif mode == 'multiply':
        upd = lambda old: mul(old, new)
    elif mode == 'max':
        upd = lambda old: maxv(old, new)
    elif mode == 'min':
        upd = lambda old: minv(old, new)
    else:
        raise Unmodelled(f'.at[].{mode}')
    if scat is not None:
        if mode != 'set':
            raise Unmodelled('scatter-' + mode)
        d, a, q = scat
        body = scat_val(x.vs[d], a.node(), a.shape[0], q, new, x.body)
    else:
        body = upd(x.body)
    if conds:
        c = ONE
        for k in conds:
            c = mul(c, k)
        body = ite(c, body, x.body)
    return Arr(x.shape, x.vs, body)


# scatter along one axis by an index array:  value at p is val(q) where inds[q]==p, else base
DISJOINT = set()  # frozenset({indsA, indsB})
INJ = set()
COVER = []  # (n, [inds...]) : every p < n is in one of inds


def member(p, inds):
    p = divmod_fold(p)
    if inds.op == 'lam' and len(inds.shape) == 1:
        pass
    if p.op == 'elem' and p.args[0] is inds:
        return ONE
    if p.op == 'elem' and frozenset((p.args[0], inds)) in DISJOINT:
        return ZERO
    return mk('ind', ('member', p, inds), 'b')


def _cut(iq, q):
    """(position, indicator, its value before the position) of a concatenation seam of the expression iq in q."""
    for a in sorted(inds_of(iq), key=lambda t: t.dig):
        if a.args[0] != 'gt' or q not in a.fs:
            continue
        d = dict(pd(a.args[1]))
        c = d.pop(((q, Fr(1)),), None)
        rest = frompd(d)
        if c not in (1, -1) or q in rest.fs:
            continue
        return (rest, a, 1) if c == -1 else (sub(ONE, rest), a, 0)
    return None


def scat_val(p, inds, size, q, val, base):
    p = divmod_fold(p)
    if inds.op == 'lam':
        iq = elem(inds, (q,))
        cut = _cut(iq, q)
        if cut is not None:
            P, a, v1 = cut
            for lo, n, v in ((ZERO, P, v1), (P, sub(size, P), 1 - v1)):
                r = fresh(n)
                sh = add(r, lo)
                part = lam((n,), (r,), subst(set_ind(iq, a, v), {q: sh}))
                base = scat_val(p, part, n, r, subst(set_ind(val, a, v) if a in inds_of(val) else val, {q: sh}), base)
            return base
    if base.op == 'scat' and base.args[0] is p and frozenset((base.args[1], inds)) in DISJOINT and \
            inds.dig < base.args[1].dig:
        _, inds2, size2, base2, nb2, b2 = base.args
        q2 = fresh(size2)
        return scat_val(p, inds2, size2, q2, subst(nb2, {b2: q2}), scat_val(p, inds, size, q, val, base2))
    if p.op == 'elem' and p.args[0] is inds and inds in INJ:
        return subst(val, {q: p.args[1]})
    if p.op == 'elem' and frozenset((p.args[0], inds)) in DISJOINT:
        return base
    iq = elem(inds, (q,))
    val2 = replace_node(val, iq, p)
    if q not in val2.fs:
        return ite(member(p, inds), val2, base)
    tm.PROPS.setdefault(q, {})['size'] = size
    bs, nb = close([q], val)
    return mk('scat', (p, inds, size, base, nb, bs[0]), val.kind, bound=frozenset(bs), extra_h=nb.h + 1)


def _rebuild_scat(t, f):
    p, inds, size, base, nb, b = t.args
    q = fresh(f(size))
    return scat_val(f(p), f(inds), f(size), q, f(nb, {b: q}), f(base))


def replace_node(t, old, new, _c=None):
    """Replace every occurrence of node old by node new."""
    if _c is None:
        _c = {}
    if t is old:
        return new
    r = _c.get(t)
    if r is None:
        if not _contains(t, old):
            r = t
        else:
            r = rebuild(t, lambda x, bind=None: replace_node(subst(x, bind) if bind else x, old, new,
                                                             _c if not bind else {}))
        _c[t] = r
    return r


def _contains(t, old, seen=None):
    stack_ = [t]
    seen = set()
    while stack_:
        x = stack_.pop()
        if isinstance(x, tuple):
            stack_.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        if x is old:
            return True
        seen.add(x)
        stack_.extend(x.args)
    return False


# hook the custom rebuilds into terms
_orig_rebuild = tm.rebuild


def _rebuild(t, f):
    if t.op == 'scat':
        return _rebuild_scat(t, f)
    if t.op == 'ind' and t.args[0] == 'member':
        return member(f(t.args[1]), f(t.args[2]))
    return _orig_rebuild(t, f)


tm.rebuild = _rebuild
rebuild = _rebuild
