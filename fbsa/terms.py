"""Hash-consed value-graph nodes with a canonical (global-value-numbering) normal form.

A node denotes a *scalar* value (real, integer, 0/1-valued boolean, or PRNG key) or an *array* value.
Scalars are kept in a rational polynomial normal form over atoms.  Booleans are 0/1 polynomials over
indicator atoms, so joins (if / where / select / cond / concatenate) are ordinary polynomials.
Binders (array comprehension, sums, recurrences) use height-based canonical names, so alpha-equivalent
graphs are the same node.
"""
from fractions import Fraction as Fr
from hashlib import blake2b
from itertools import count, permutations
import sys

sys.setrecursionlimit(20000)


class Unmodelled(Exception):
    """The analysis met a construct it has no transfer function for (no verdict)."""


class Definite(Exception):
    """The analysed program is definitely ill-formed on the analysed path (shape error, bad index, ...)."""

    def __init__(self, msg, loc=None):
        super().__init__(msg)
        self.loc = loc


_table = {}
_fresh = count()
ORIGIN = {}
CUR_LOC = [None]


class T:
    __slots__ = ('op', 'args', 'kind', 'dig', 'fs', 'h', 'shape', 'rank_', '__weakref__')

    def __repr__(self):
        return pp(self)

    def __lt__(self, other):
        return self.dig < other.dig


def _dig_of(x):
    if isinstance(x, T):
        return x.dig
    if isinstance(x, tuple):
        h = blake2b(digest_size=12)
        h.update(b'(')
        for y in x:
            h.update(_dig_of(y))
        h.update(b')')
        return h.digest()
    return blake2b((type(x).__name__ + ':' + str(x)).encode(), digest_size=12).digest()


def _walk(x, f):
    if isinstance(x, T):
        f(x)
    elif isinstance(x, tuple):
        for y in x:
            _walk(y, f)


EMPTY = frozenset()


def mk(op, args=(), kind='f', shape=None, bound=EMPTY, extra_h=0):
    """Intern a node.  `bound` is the set of symbols this node binds."""
    key = (op, args, kind)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.kind = op, args, kind
    t.dig = _dig_of((op, kind) + args)
    fs = set()
    h = [0]

    def see(x):
        fs.update(x.fs)
        if x.h > h[0]:
            h[0] = x.h

    for a in args:
        _walk(a, see)
    if op in ('var', 'bvar', 'cvar'):
        fs.add(t)
    t.fs = frozenset(fs - bound) if bound else frozenset(fs)
    t.h = max(h[0], extra_h)
    t.shape = shape
    t.rank_ = None
    _table[key] = t
    if CUR_LOC[0] is not None and t.dig not in ORIGIN:
        ORIGIN[t.dig] = CUR_LOC[0]
    return t


# ----------------------------------------------------------------------------------------------------------------------
# symbols
# ----------------------------------------------------------------------------------------------------------------------
PROPS = {}  # var node -> dict(size=T|None, pos=bool, nonneg=bool, min=int)


def var(name, kind='f', shape=(), **props):
    """A free symbol.  shape=() is a scalar, otherwise an array atom."""
    t = mk('var', (name, len(shape)) + tuple(shape), kind, shape=tuple(shape))
    if props:
        PROPS[t] = props
    return t


def fresh(size=None, kind='i', tag='i'):
    t = mk('var', (f'${tag}{next(_fresh)}', 0), kind, shape=())
    PROPS[t] = {'size': size}
    return t


def dim(name, lo=1):
    """A symbolic positive integer (array extent)."""
    t = mk('var', (name, 0), 'i', shape=())
    PROPS[t] = {'min': lo}
    return t


def bvar(h, size, kind='i'):
    t = mk('bvar', (h, size), kind, shape=())
    if t not in PROPS:
        PROPS[t] = {'size': size} if isinstance(size, T) else {'nonneg': True}
    return t


# ----------------------------------------------------------------------------------------------------------------------
# polynomials: dict {mono: Fraction}; mono = tuple of (atom, Fraction) sorted by digest
# ----------------------------------------------------------------------------------------------------------------------
ONE_M = ()


def pd(t):
    """The polynomial dictionary of a scalar node."""
    if t.op == 'poly':
        return dict(t.args)
    return {((t, Fr(1)),): Fr(1)}


_frompd_cache = {}


def _is_int_atom(a):
    return a.kind in ('i', 'b')


def frompd(d):
    d = {m: c for m, c in d.items() if c != 0}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: _dig_of(mc[0])))
    kind = 'i'
    for m, c in items:
        if c.denominator != 1:
            kind = 'f'
            break
        for a, e in m:
            if not _is_int_atom(a) or e < 0 or e.denominator != 1:
                kind = 'f'
                break
        if kind == 'f':
            break
    if kind == 'f' and len(items) == 1 and len(items[0][0]) == 1 and items[0][0][0][0].kind == 'k':
        kind = 'k'
    return mk('poly', items, kind)


def const(c):
    if isinstance(c, bool):
        c = int(c)
    c = Fr(c)
    return frompd({ONE_M: c} if c else {})


ZERO = const(0)
ONE = const(1)


def cval(t):
    """The rational value of a constant node, else None."""
    if t.op == 'poly':
        if not t.args:
            return Fr(0)
        if len(t.args) == 1 and t.args[0][0] == ():
            return t.args[0][1]
    return None


def ival(t):
    c = cval(t)
    return int(c) if c is not None and c.denominator == 1 else None


def _mono_norm(pairs):
    """Multiply atoms with exponents; returns a poly dict (may expand groups)."""
    acc = {}
    for a, e in pairs:
        acc[a] = acc.get(a, Fr(0)) + e
    coef = Fr(1)
    out = []
    expand = []
    for a, e in acc.items():
        if e == 0:
            continue
        op = a.op
        if op == 'ind':
            if e > 0:
                e = Fr(1)
            out.append((a, e))
        elif op == 'prime':
            ip = e.numerator // e.denominator
            fp = e - ip
            coef *= Fr(a.args[0]) ** ip
            if fp:
                out.append((a, fp))
        elif op == 'grp' and e >= 1:
            ip = e.numerator // e.denominator
            fp = e - ip
            if ip > 8:
                out.append((a, e))
            else:
                expand.append((a.args[0], ip))
                if fp:
                    out.append((a, fp))
        elif op == 'abs' and e >= 2:
            ip = (e.numerator // e.denominator) // 2
            expand.append((a.args[0], 2 * ip))
            if e - 2 * ip:
                out.append((a, e - 2 * ip))
        else:
            out.append((a, e))
    out.sort(key=lambda ae: ae[0].dig)
    d = {tuple(out): coef}
    for p, k in expand:
        q = pd(p)
        for _ in range(k):
            d = _pmul(d, q)
    return d


def _pmul(d1, d2):
    r = {}
    for m1, c1 in d1.items():
        for m2, c2 in d2.items():
            c = c1 * c2
            if not m1:
                nd = {m2: Fr(1)}
            elif not m2:
                nd = {m1: Fr(1)}
            else:
                nd = _mono_norm(m1 + m2)
            for m, k in nd.items():
                v = r.get(m, 0) + c * k
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
    return r


def _padd(d1, d2, k=Fr(1)):
    r = dict(d1)
    for m, c in d2.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


_add_c, _mul_c = {}, {}


def _has_den(d):
    for m in d:
        for a, e in m:
            if e < 0 and a.op == 'grp':
                return True
    return False


def fin(d):
    if _has_den(d):
        d = _rat(d)
    return frompd(d)


def add(*ts):
    if len(ts) == 2:
        k = (ts[0], ts[1])
        r = _add_c.get(k)
        if r is not None:
            return r
    d = {}
    for t in ts:
        d = _padd(d, pd(t))
    r = fin(d)
    if len(ts) == 2:
        _add_c[k] = r
    return r


def neg(t):
    return frompd({m: -c for m, c in pd(t).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    if len(ts) == 2:
        k = (ts[0], ts[1])
        r = _mul_c.get(k)
        if r is not None:
            return r
    d = {ONE_M: Fr(1)}
    for t in ts:
        d = _pmul(d, pd(t))
    r = fin(d)
    if len(ts) == 2:
        _mul_c[k] = r
    return r


def _rat(d):
    """Put over a common denominator of groups and cancel exact divisors."""
    dens = {}
    for m in d:
        for a, e in m:
            if a.op == 'grp' and e < 0:
                k = -(e.numerator // e.denominator)
                dens[a] = max(dens.get(a, 0), k)
    if not dens:
        return d
    num = {}
    for m, c in d.items():
        cur = {ONE_M: c}
        mm = dict(m)
        rest = tuple((a, e) for a, e in m if a not in dens)
        cur = {rest: c}
        for g, k in dens.items():
            e = mm.get(g, Fr(0)) + k
            if e:
                cur = _pmul(cur, _mono_norm(((g, e),)))
        num = _padd(num, cur)
    if not num:
        return {}
    if len(num) > 1:
        for g in sorted(dens, key=lambda x: x.dig):
            while dens[g] > 0:
                q = _pdiv(num, pd(g.args[0]))
                if q is None:
                    break
                num = q
                dens[g] -= 1
    tail = tuple((g, Fr(-k)) for g, k in dens.items() if k)
    if not tail:
        return num
    r = {}
    for m, c in num.items():
        for m2, c2 in _mono_norm(m + tail).items():
            r[m2] = r.get(m2, 0) + c * c2
    return {m: c for m, c in r.items() if c}


def _pdiv(n, d):
    """Exact division of polynomial dicts (Laurent, rational exponents); None if not exact."""
    atoms = sorted({a for m in d for a, _ in m}, key=lambda x: x.dig)
    if not atoms:
        return None
    atn = sorted({a for m in n for a, _ in m} | set(atoms), key=lambda x: x.dig)
    idx = {a: i for i, a in enumerate(atn)}
    # indicator idempotence breaks plain division
    if any(a.op == 'ind' for a in atoms):
        return None

    def vec(m):
        v = [Fr(0)] * len(atn)
        for a, e in m:
            v[idx[a]] = e
        return tuple(v)

    # shift to non-negative exponents
    D = {vec(m): c for m, c in d.items()}
    N = {vec(m): c for m, c in n.items()}
    lo = [min(v[i] for v in N) for i in range(len(atn))]
    lod = [min(v[i] for v in D) for i in range(len(atn))]
    if any(x != 0 for x in lod):
        D = {tuple(a - b for a, b in zip(v, lod)): c for v, c in D.items()}
    N = {tuple(a - b for a, b in zip(v, lo)): c for v, c in N.items()}
    ld = max(D)
    cd = D[ld]
    Q = {}
    steps = 0
    while N:
        ln = max(N)
        q = tuple(a - b for a, b in zip(ln, ld))
        if any(x < 0 for x in q):
            return None
        c = N[ln] / cd
        Q[q] = c
        for v, k in D.items():
            w = tuple(a + b for a, b in zip(v, q))
            x = N.get(w, 0) - c * k
            if x:
                N[w] = x
            else:
                N.pop(w, None)
        steps += 1
        if steps > 400:
            return None
    out = {}
    for q, c in Q.items():
        pairs = tuple((a, e + l - m) for a, e, l, m in zip(atn, q, lo, lod) if e + l - m)
        for m2, c2 in _mono_norm(pairs).items():
            out[m2] = out.get(m2, 0) + c * c2
    return {m: c for m, c in out.items() if c}


def content(d):
    """Factor d = c * mono * prim with prim having min exponent 0 for every atom and leading coef 1."""
    mins = None
    for m in d:
        mm = {a: e for a, e in m if a.op != 'ind'}
        if mins is None:
            mins = mm
        else:
            mins = {a: min(mins.get(a, Fr(0)), mm.get(a, Fr(0))) for a in {**mins, **mm}}
    pull = tuple((a, e) for a, e in (mins or {}).items() if e != 0)
    if pull:
        inv = tuple((a, -e) for a, e in pull)
        nd = {}
        for m, c in d.items():
            for m2, c2 in _mono_norm(m + inv).items():
                nd[m2] = nd.get(m2, 0) + c * c2
        d = {m: c for m, c in nd.items() if c}
    lead = min(d, key=_lead_key)
    # content of coefficients: make the leading one +-1
    c = d[lead]
    d = {m: k / c for m, k in d.items()}
    return c, pull, d


def _primes(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 10000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def prime(p):
    return mk('prime', (p,), 'i')


def _cpow(c, e):
    """c**e for a positive rational c as a poly dict."""
    if e.denominator == 1:
        return {ONE_M: c ** int(e)}
    pairs = []
    for p, k in _primes(c.numerator).items():
        pairs.append((prime(p), k * e))
    for p, k in _primes(c.denominator).items():
        pairs.append((prime(p), -k * e))
    return _mono_norm(tuple(pairs))


_pow_c = {}


def powq(t, e):
    e = Fr(e)
    key = (t, e)
    r = _pow_c.get(key)
    if r is None:
        r = _pow_c[key] = _powq(t, e)
    return r


def inds_of(t):
    """Indicator atoms occurring at the top level of a polynomial."""
    if t.op == 'ind':
        return [t]
    if t.op != 'poly':
        return []
    s = {}
    for m, _ in t.args:
        for a, _e in m:
            if a.op == 'ind':
                s[a] = 1
    return sorted(s, key=lambda a: a.dig)


def set_ind(t, ind, val):
    d = {}
    for m, c in pd(t).items():
        has = False
        mm = []
        for a, e in m:
            if a is ind:
                has = True
            else:
                mm.append((a, e))
        if has and not val:
            continue
        mm = tuple(mm)
        d[mm] = d.get(mm, 0) + c
    return fin(d)


def split_ind(t, f, depth=0):
    """Lift f over the indicators of t: f(ite(c,a,b)) = ite(c,f(a),f(b))."""
    ii = inds_of(t)
    if not ii:
        return f(t)
    if depth > 6:
        raise Unmodelled('too many joined conditions')
    c = ii[0]
    a = split_ind(set_ind(t, c, 1), f, depth + 1)
    b = split_ind(set_ind(t, c, 0), f, depth + 1)
    return ite(c, a, b)


def split_args(args, f):
    """Lift f over indicators in any of several scalar args."""
    for i, t in enumerate(args):
        ii = inds_of(t)
        if ii:
            c = ii[0]
            a1 = tuple(set_ind(x, c, 1) if c in inds_of(x) else x for x in args)
            a0 = tuple(set_ind(x, c, 0) if c in inds_of(x) else x for x in args)
            return ite(c, split_args(a1, f), split_args(a0, f))
    return f(*args)


def _powq(t, e):
    if e == 0:
        return ONE
    if e == 1:
        return t
    c = cval(t)
    if c is not None:
        if c == 0:
            if e > 0:
                return ZERO
            return INF
        if c > 0:
            return frompd(_cpow(c, e))
        if e.denominator == 1:
            return const(c ** int(e))
        return frompd(_pmul(_cpow(-c, e), {((mk('negone', (), 'i'), e),): Fr(1)}))
    if inds_of(t) and not (e.denominator == 1 and e > 0):
        return split_ind(t, lambda x: powq(x, e))
    d = pd(t)
    if e.denominator == 1 and 0 < e <= 8 and len(d) ** int(e) <= 3000:
        r = {ONE_M: Fr(1)}
        for _ in range(int(e)):
            r = _pmul(r, d)
        return fin(r)
    cc, pull, prim = content(d)
    if cc < 0 and e.denominator != 1:
        # keep the sign inside
        if len(prim) == 1:
            return frompd(_pmul(_pmul(_cpow(-cc, e), {((mk('negone', (), 'i'), e),): Fr(1)}),
                                _mono_norm(tuple((a, k * e) for a, k in pull))))
        prim = {m: -k for m, k in prim.items()}
        cc = -cc
    if cc < 0:
        r = {ONE_M: cc ** int(e)}
    else:
        r = _cpow(cc, e)
    r = _pmul(r, _mono_norm(tuple((a, k * e) for a, k in pull)))
    if len(prim) > 1 or next(iter(prim)) != ():
        g = frompd(prim)
        if g.op != 'poly':
            r = _pmul(r, _mono_norm(((g, e),)))
        elif len(prim) == 1:
            (m, k), = prim.items()
            r = _pmul(r, _mono_norm(tuple((a, x * e) for a, x in m)))
        else:
            ga = mk('grp', (g,), g.kind)
            r = _pmul(r, _mono_norm(((ga, e),)))
    return fin(r)


def div(a, b):
    if a is b:
        return ONE
    return mul(a, powq(b, -1))


def sqrt(t):
    return powq(t, Fr(1, 2))


INF = mk('inf', (), 'f')
PI = mk('pi', (), 'f')


def exp(t):
    if t is ZERO:
        return ONE
    if inds_of(t):
        return split_ind(t, exp)
    d = pd(t)
    r = {ONE_M: Fr(1)}
    for m, c in d.items():
        if m == ((INF, Fr(1)),):
            return ZERO if c < 0 else INF
        if len(m) == 1 and m[0][0].op == 'log' and m[0][1] == 1:
            x = m[0][0].args[0]
            r = _pmul(r, pd(powq(x, c)))
            continue
        base = frompd({m: Fr(1)})
        r = _pmul(r, {((mk('E', (base,)), c),): Fr(1)})
    return fin(r)


def log(t):
    c = cval(t)
    if c is not None:
        if c == 1:
            return ZERO
        if c == 0:
            return neg(INF)
        if c > 0:
            out = ZERO
            for p, k in _primes(c.numerator).items():
                out = add(out, mul(const(k), mk('log', (const(p),))))
            for p, k in _primes(c.denominator).items():
                out = sub(out, mul(const(k), mk('log', (const(p),))))
            return out
        return mk('log', (t,))
    if inds_of(t):
        return split_ind(t, log)
    cc, pull, prim = content(pd(t))
    if cc < 0:
        prim = {m: -k for m, k in prim.items()}
        cc = -cc
    if len(prim) == 1:
        (m, k), = prim.items()
        pull = pull + m
        if k < 0:
            return mk('log', (t,))
        prim = None
    out = log(const(cc))
    for a, e in pull:
        if a.op == 'E':
            out = add(out, mul(const(e), a.args[0]))
        elif a.op == 'grp':
            out = add(out, mul(const(e), mk('log', (a.args[0],))))
        elif a.op == 'prime':
            out = add(out, mul(const(e), mk('log', (const(a.args[0]),))))
        else:
            out = add(out, mul(const(e), mk('log', (a,))))
    if prim is not None:
        out = add(out, mk('log', (frompd(prim),)))
    return out


def power(a, b):
    c = cval(b)
    if c is not None:
        return powq(a, c)
    return exp(mul(b, log(a)))


def absv(t):
    c = cval(t)
    if c is not None:
        return const(abs(c))
    if inds_of(t):
        return split_ind(t, absv)
    s = sign(t)
    if s is not None and s >= 0:
        return t
    if s is not None and s < 0:
        return neg(t)
    cc, pull, prim = content(pd(t))
    r = {ONE_M: abs(cc)}
    for a, e in pull:
        if is_pos(a) or (e.denominator == 1 and e % 2 == 0):
            r = _pmul(r, _mono_norm(((a, e),)))
        else:
            r = _pmul(r, _mono_norm(((mk('abs', (a,), a.kind), e),)))
    p = frompd(prim)
    if cval(p) is None:
        r = _pmul(r, {((mk('abs', (p,), p.kind), Fr(1)),): Fr(1)})
    return fin(r)


def fn(name, *args, kind='f'):
    """An uninterpreted elementwise scalar function, lifted over joins."""
    return split_args(tuple(args), lambda *a: mk('fn', (name,) + a, kind))


# ----------------------------------------------------------------------------------------------------------------------
# sign analysis
# ----------------------------------------------------------------------------------------------------------------------
FACTS = []  # list of polys known > 0 (strict, floats) or >= 1 (ints)


def is_pos(a):
    """atom known strictly positive"""
    op = a.op
    if op in ('E', 'pi', 'prime', 'inf'):
        return True
    p = PROPS.get(a)
    if p:
        if p.get('pos') or p.get('min', 0) > 0:
            return True
    if op == 'elem':
        p = PROPS.get(a.args[0])
        if p and p.get('pos'):
            return True
        if a.args[0].op == 'rand' and a.args[0].args[0] == 'uniform01':
            return True
        if a.args[0].op == 'mfn' and a.args[0].args[0] == 'cholesky':
            return a.args[1] is a.args[2]
        return False
    if op == 'sum':
        return _pos_term(a.args[1])
    if op == 'red' and a.args[0] in ('max', 'min'):
        return _pos_term(a.args[2])
    if op == 'fn' and a.args[0] == 'max':
        return True
    if op == 'size':
        return True
    if op == 'grp':
        return sign(a.args[0]) == 1
    return False


def _pos_term(t):
    return all(c > 0 and all(is_pos(a) for a, e in m) for m, c in pd(t).items()) and bool(pd(t))


def is_nonneg(a):
    if is_pos(a):
        return True
    if a.op in ('ind', 'abs'):
        return True
    p = PROPS.get(a)
    if p and (p.get('nonneg') or 'size' in p and p['size'] is not None or 'min' in p and p['min'] >= 0):
        return True
    if a.op == 'elem':
        p = PROPS.get(a.args[0])
        if p and p.get('nonneg'):
            return True
        if a.args[0].op in ('rand',) and a.kind == 'i':
            return True
    if a.op == 'fn' and a.args[0] in ('mod',):
        return True
    if a.op == 'fn' and a.args[0] == 'floordiv' and (sign(a.args[1]) or 0) >= 0 and sign(a.args[2]) == 1 \
            and sign(a.args[1]) is not None:
        return True
    return False


_sign_busy = [0]


def sign(t):
    """1: >0, 0: >=0, -1: <0 ; None unknown.  (0 means non-negative)"""
    c = cval(t)
    if c is not None:
        return 1 if c > 0 else (0 if c == 0 else -1)
    ck = (t, tuple(FACTS), PROPS_V[0])
    if ck in _sign_c:
        return _sign_c[ck]
    if _sign_busy[0] > 4:
        return None
    _sign_busy[0] += 1
    try:
        s = _sign(t)
    finally:
        _sign_busy[0] -= 1
    if s is not None or _sign_busy[0] <= 2:
        if len(_sign_c) > 500000:
            _sign_c.clear()
        _sign_c[ck] = s
    return s


_sign_c = {}
PROPS_V = [0]


def _sign(t):
    s = _sgn1(t)
    if s is not None:
        return s
    for f in FACTS:
        s = _sgn1(sub(t, f))
        if s is not None and s >= 0:
            return 1
    s = _sgn1(neg(t))
    if s == 1:
        return -1
    for f in FACTS:
        s = _sgn1(sub(neg(t), f))
        if s is not None and s >= 0:
            return -1
    return None


def nonpos(t):
    s = sign(neg(t))
    return s is not None and s >= 0


def _sgn1(t):
    """Lower-bound t by replacing each bounded variable by its worst end."""
    seen = 0
    while seen < 6:
        seen += 1
        d = pd(t)
        changed = False
        for m, c in d.items():
            if c < 0:
                # try to bound an upper-bounded variable v <= size-1
                for a, e in m:
                    if e == 1 and a.op in ('var', 'bvar'):
                        p = PROPS.get(a, {})
                        sz = p.get('size')
                        if sz is not None and a not in sz.fs:
                            w = _slackvar(a)
                            t = subst(t, {a: sub(sub(sz, ONE), w)})
                            changed = True
                            break
                    if a.op == 'fn' and a.args[0] == 'mod' and e == 1 and sign(a.args[2]) == 1:
                        w = _slackvar(a)
                        t = replace_atom(t, a, sub(sub(a.args[2], ONE), w))
                        changed = True
                        break
                    if a.op == 'ind' and e == 1 and len(m) == 1:
                        w = _slackvar(a)
                        t = replace_atom(t, a, sub(ONE, w))
                        changed = True
                        break
                if changed:
                    break
        if not changed:
            break
    # shift positive-lower-bounded vars
    d = pd(t)
    sh = {}
    for m in d:
        for a, e in m:
            if a.op == 'var':
                mn = PROPS.get(a, {}).get('min')
                if mn:
                    sh[a] = add(_slackvar(a), const(mn))
    if sh:
        t = subst(t, sh)
        d = pd(t)
    strict = False
    for m, c in d.items():
        if c < 0:
            return None
        if all(is_pos(a) for a, e in m):
            strict = True
            continue
        for a, e in m:
            if not (is_nonneg(a) or (e.denominator == 1 and e % 2 == 0)):
                return None
    return 1 if strict else 0


def _slackvar(a):
    t = mk('var', ('$sl' + a.dig.hex(), 0), 'i', shape=())
    PROPS[t] = {'nonneg': True}
    return t


def replace_atom(t, a, v):
    d = {}
    for m, c in pd(t).items():
        cur = {ONE_M: c}
        for x, e in m:
            if x is a:
                cur = _pmul(cur, pd(powq(v, e)))
            else:
                cur = _pmul(cur, {((x, e),): Fr(1)})
        d = _padd(d, cur)
    return fin(d)


# ----------------------------------------------------------------------------------------------------------------------
# booleans
# ----------------------------------------------------------------------------------------------------------------------
def _ind(rel, p):
    if rel == 'gt' and p.kind == 'i':
        # an index beyond all but its last value: v > size - 2 is v == size - 1
        d = pd(p)
        for m, c in d.items():
            if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('var', 'bvar'):
                v = m[0][0]
                sz = PROPS.get(v, {}).get('size')
                if sz is None or isinstance(sz, tuple) or v in sz.fs:
                    continue
                if c == 1 and add(sub(p, v), sub(sz, const(2))) is ZERO:
                    return eq0(sub(v, sub(sz, ONE)))
                if c == -1 and sub(add(p, v), sub(sz, ONE)) is ZERO:
                    return sub(ONE, eq0(sub(v, sub(sz, ONE))))
    return mk('ind', (rel, p), 'b')


def gt0(p):
    """[p > 0]"""
    c = cval(p)
    if c is not None:
        return ONE if c > 0 else ZERO
    if inds_of(p):
        return split_ind(p, gt0)
    s = sign(p)
    if s == 1:
        return ONE
    if s == -1 or nonpos(p):
        return ZERO
    d = pd(p)
    if p.kind == 'i':
        nc = {m: k for m, k in d.items() if m}
        lead = nc[min(nc, key=_lead_key)]
        if lead < 0:
            return sub(ONE, _gt_i(sub(ONE, p)))
        return _gt_i(p)
    # positive scaling
    cc, pull, prim = content(d)
    out = {ONE_M: Fr(1) if cc > 0 else Fr(-1)}
    for a, e in pull:
        if not is_pos(a):
            out = _pmul(out, {((a, e),): Fr(1)})
    q = fin(_pmul(out, prim))
    # denominators: multiply through by positive groups
    for _ in range(4):
        den = None
        for m in pd(q):
            for a, e in m:
                if e < 0 and is_pos(a):
                    den = (a, -e)
        if den is None:
            break
        q = mul(q, powq(den[0], den[1]))
    # X - Y > 0 with positive monomials containing exponentials -> log form
    dq = pd(q)
    if len(dq) == 2:
        (m1, c1), (m2, c2) = dq.items()
        if c1 * c2 < 0 and any(a.op == 'E' for a, e in m1 + m2) and \
                all(is_pos(a) for a, e in m1 + m2):
            if c1 < 0:
                m1, c1, m2, c2 = m2, c2, m1, c1
            q2 = sub(log(frompd({m1: c1})), log(frompd({m2: -c2})))
            return gt0(q2)
    c0, pl, pr = content(dq)
    if abs(c0) != 1:
        q = fin({m: c / abs(c0) for m, c in dq.items()})
    return _ind('gt', q)


def _gt_i(p):
    # integer p > 0; normalise gcd of non-constant coefficients
    from math import gcd
    d = pd(p)
    g = 0
    for m, c in d.items():
        if m:
            g = gcd(g, int(c))
    if g > 1:
        k = d.get(ONE_M, Fr(0))
        # g*x + k > 0  <=>  x > -k/g  <=> x + ceil? -> x >= floor(-k/g)+1
        lo = (-k / g)
        fl = lo.numerator // lo.denominator
        d2 = {m: c / g for m, c in d.items() if m}
        d2[ONE_M] = Fr(-fl)
        p = frompd(d2)
    return _ind('gt', p)


def eq0(p):
    c = cval(p)
    if c is not None:
        return ONE if c == 0 else ZERO
    if inds_of(p):
        return split_ind(p, eq0)
    s = sign(p)
    if s in (1, -1) or sign(neg(p)) == 1:
        return ZERO
    c, pull, prim = content(pd(p))
    d = pd(p)
    if d[min(d, key=_dig_of)] < 0:
        p = neg(p)
    if p.kind != 'i':
        lc = pd(p)[min(pd(p), key=_dig_of)]
        p = fin({m: k / lc for m, k in pd(p).items()})
    return _ind('eq', p)


def lt(a, b):
    return gt0(sub(b, a))


def le(a, b):
    if a.kind in 'ib' and b.kind in 'ib':
        return gt0(add(sub(b, a), ONE))
    return sub(ONE, gt0(sub(a, b)))


def eq(a, b):
    if a is b:
        return ONE
    return eq0(sub(a, b))


def not_(a):
    return sub(ONE, a)


def and_(a, b):
    return mul(a, b)


def or_(a, b):
    return sub(add(a, b), mul(a, b))


def ite(c, a, b):
    if a is b:
        return a
    k = cval(c)
    if k is not None:
        return a if k != 0 else b
    if a.kind == 'k' or b.kind == 'k':
        return mk('kite', (c, a, b), 'k')
    r = add(mul(c, a), mul(sub(ONE, c), b))
    if c.op == 'ind' and c.args[0] == 'eq' or (c.op == 'ind' and c.args[0] == 'gt') or c.op == 'poly':
        m = _merge_join(c, a, b)
        if m is not None:
            return m
    return r


def _merge_join(c, a, b):
    """ite(i == e, A, B) with B[i:=e] == A  is  B (likewise for i<1 / i>0 with i >= 0)."""
    pol = True
    cc = c
    if cc.op == 'poly':
        d = pd(cc)
        if len(d) == 2 and d.get(ONE_M) == 1:
            (m, k), = [(m, k) for m, k in d.items() if m]
            if k == -1 and len(m) == 1 and m[0][0].op == 'ind':
                cc = m[0][0]
                pol = False
        if cc is c:
            return None
    rel, p = cc.args
    if rel == 'gt' and p.kind == 'i':
        # p>0 with p = v (v>=0): false branch is v==0 ; p = 1 - v handled by polarity canonicalisation
        ats = [x for m in pd(p) for x, e in m]
        if len(pd(p)) == 1 and len(ats) == 1 and ats[0].op in ('var', 'bvar') and \
                PROPS.get(ats[0], {}).get('size') is not None:
            v, e = ats[0], ZERO
            hi, lo = (a, b) if pol else (b, a)
            if subst(hi, {v: e}) is subst(lo, {v: e}):
                return hi
        # p >= 0 everywhere: the false branch is p == 0
        sp = sign(p)
        if sp is not None and sp >= 0:
            hi, lo = (a, b) if pol else (b, a)
            for m, k in pd(p).items():
                if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0].op in ('var', 'bvar'):
                    v = m[0][0]
                    e = sub(v, p) if k == 1 else add(v, p)
                    if v not in e.fs and subst(hi, {v: e}) is subst(lo, {v: e}):
                        return hi
        # p = v - size + 1 + 1 ... last element: v > size-2  <=> v == size-1
        vs = [x for x in ats if x.op in ('var', 'bvar') and PROPS.get(x, {}).get('size') is not None]
        for v in vs:
            if pd(p).get(((v, Fr(1)),)) == 1:
                bound = sub(v, p)  # v > bound
                if add(bound, const(2)) is PROPS[v]['size']:
                    last, rest = (a, b) if pol else (b, a)
                    e = add(bound, ONE)
                    if subst(rest, {v: e}) is subst(last, {v: e}):
                        return rest
        return None
    if rel == 'eq' and pol is True:
        for m, k in pd(p).items():
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0].op in ('var', 'bvar'):
                v = m[0][0]
                e = sub(v, p) if k == 1 else add(v, p)
                if v in e.fs:
                    continue
                if subst(b, {v: e}) is subst(a, {v: e}):
                    return b
    if rel == 'eq' and pol is False:
        for m, k in pd(p).items():
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0].op in ('var', 'bvar'):
                v = m[0][0]
                e = sub(v, p) if k == 1 else add(v, p)
                if v in e.fs:
                    continue
                if subst(a, {v: e}) is subst(b, {v: e}):
                    return a
    return None


ERASE = [lambda t: t]  # set by loops: forget key names


def _lead_key(m):
    # independent of key names and of index names, so that orientation survives renaming
    return (tuple(sorted((str(e), _anon(a)) for a, e in m)), _dig_of(m))


_anon_c = {}


def _anon(a):
    r = _anon_c.get(a)
    if r is None:
        t = ERASE[0](a)
        idx = sorted([v for v in t.fs if v.op == 'bvar' or (v.op == 'var' and str(v.args[0]).startswith('$'))],
                     key=lambda v: str(v.args))
        if idx and all(not v.shape for v in idx):
            h = mk('var', ('$any', 0), 'i', shape=())
            t = subst(t, {v: h for v in idx if v.kind == 'i'})
        r = _anon_c[a] = t.dig.hex()
    return r


def maxv(a, b):
    if a is b:
        return a
    if INF in (a, b):
        return INF
    p = sub(a, b)
    s = sign(p)
    if s is not None and s >= 0:
        return a
    if s == -1 or nonpos(p):
        return b
    # max(x, guard): kept as one atom (a guard against division by zero)
    for x, c in ((a, b), (b, a)):
        cc = cval(c)
        if cc is not None and 0 < cc <= GUARD and x.kind == 'f' and cval(x) is None and not inds_of(x):
            return mk('fn', ('max', x, c), 'f')
    d = pd(p)
    if d[min(d, key=_lead_key)] < 0:
        a, b, p = b, a, neg(p)
    return add(b, mul(gt0(p), p)) if not inds_of(p) else ite(gt0(p), a, b)


def minv(a, b):
    if a is b:
        return a
    p = sub(a, b)
    s = sign(p)
    if s is not None and s >= 0:
        return b
    if s == -1 or nonpos(p):
        return a
    return sub(add(a, b), maxv(a, b))


# ----------------------------------------------------------------------------------------------------------------------
# integer division
# ----------------------------------------------------------------------------------------------------------------------
def floordiv(a, b):
    if inds_of(a) or inds_of(b):
        return split_args((a, b), floordiv)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(ca // cb)
    if b is ONE and a.kind == 'i':
        return a
    q, r = _divmod_split(a, b)
    if r is ZERO:
        return q
    if sign(b) == 1:
        s1 = sign(r)
        if s1 is not None and s1 >= 0 and sign(sub(b, r)) == 1:
            return q
    if r.op == 'poly' and cval(b) is None and cval(r) is not None and cval(r) < 0 and sign(add(b, r)) is not None \
            and sign(add(b, r)) >= 0 and sign(b) == 1:
        return sub(q, ONE)
    if q is not ZERO:
        return add(q, floordiv(r, b))
    return mk('fn', ('floordiv', r, b), 'i')


def mod(a, b):
    if inds_of(a) or inds_of(b):
        return split_args((a, b), mod)
    ca, cb = cval(a), cval(b)
    if ca is not None and cb is not None:
        return const(ca % cb)
    q, r = _divmod_split(a, b)
    if r is ZERO:
        return ZERO
    if sign(b) == 1:
        s1 = sign(r)
        if s1 is not None and s1 >= 0 and sign(sub(b, r)) == 1:
            return r
    return mk('fn', ('mod', r, b), 'i' if r.kind == 'i' and b.kind == 'i' else 'f')


def _divmod_split(a, b):
    """a = q*b + r, moving every monomial of a exactly divisible by b (monomial b or a factorable part) into q."""
    db = pd(b)
    q, r = {}, {}
    if len(db) == 1:
        (mb, cb), = db.items()
        eb = dict(mb)
        for m, c in pd(a).items():
            em = dict(m)
            ok = (c / cb).denominator == 1 and all(em.get(x, 0) >= e for x, e in eb.items())
            if ok:
                mm = tuple((x, e - eb.get(x, 0)) for x, e in m if e - eb.get(x, 0) != 0)
                q[mm] = q.get(mm, 0) + c / cb
            else:
                r[m] = c
        return frompd(q), frompd(r)
    # polynomial divisor: try exact on parts
    x = _pdiv(pd(a), db)
    if x is not None:
        return frompd(x), ZERO
    if sign(b) == 1 and sign(a) in (0, 1) and sign(sub(b, a)) == 1:
        return ZERO, a
    # a = q*b + r: polynomial division by the leading monomial of b (integer coefficients only)
    if a.kind != 'i' or b.kind != 'i' or any(e < 0 or e.denominator != 1 for m in db for _, e in m):
        return ZERO, a
    lm = max((m for m in db if m), key=lambda m: (sum(e for _, e in m), sorted((x.dig, e) for x, e in m)))
    lc, lv = db[lm], dict(lm)
    rem, n = dict(pd(a)), 0
    while True:
        hit = None
        for m, c in rem.items():
            em = dict(m)
            if (c / lc).denominator == 1 and all(em.get(x, 0) >= e for x, e in lv.items()):
                if hit is None or len(m) > len(hit[0]):
                    hit = (m, c / lc)
        n += 1
        if hit is None or n > 50:
            break
        em = dict(hit[0])
        for x, e in lv.items():
            em[x] -= e
        qm = frompd({tuple((x, e) for x, e in hit[0] if em[x] != 0) and
                     tuple((x, em[x]) for x, e in hit[0] if em[x] != 0): Fr(hit[1])})
        q = _padd(q, pd(qm))
        rem = dict(pd(sub(frompd(rem), mul(qm, b))))
    return (frompd(q), frompd(rem)) if n <= 50 else (ZERO, a)


def floor_(t):
    if t.kind in 'ib':
        return t
    c = cval(t)
    if c is not None:
        return const(c.numerator // c.denominator)
    if inds_of(t):
        return split_ind(t, floor_)
    # rational int quotient -> floordiv
    d = pd(t)
    den = ONE
    for m, c in d.items():
        for a, e in m:
            if e < 0 and _is_int_atom(a):
                den = mul(den, powq(a, -e)) if cval(div(den, powq(a, -e))) is None and \
                                               not _divides(powq(a, -e), den) else den
    # coefficient denominators
    from math import lcm
    L = 1
    for m, c in d.items():
        L = lcm(L, c.denominator)
    den = mul(den, const(L))
    num = mul(t, den)
    if num.kind == 'i' and den.kind == 'i' and den is not ONE:
        return floordiv(num, den)
    if num.kind == 'i' and den is ONE:
        return num
    return mk('fn', ('floor', t), 'i')


def _divides(a, b):
    q = div(b, a)
    return all(e >= 0 for m in pd(q) for _, e in m)


# ----------------------------------------------------------------------------------------------------------------------
# arrays, elements, binders
# ----------------------------------------------------------------------------------------------------------------------
def array_shape(A):
    return A.shape


LOGDET = [None]
SYMMETRIC = set()  # array atoms (2d) known symmetric
INJECTIVE = {}


def symmetric(A):
    return A in SYMMETRIC or A.op == 'mfn' and (A.args[0] == 'sqrtm' or A.args[0] == 'inv' and symmetric(A.args[1])) \
        or A.op == 'app' and A.args[0] == 'summary:sqrtm'



def divmod_fold(t):
    """a * (x // a) + x mod a = x"""
    d = pd(t)
    if len(d) < 2:
        return t
    for m, c in d.items():
        for a, e in m:
            if a.op == 'fn' and a.args[0] == 'mod' and e == 1:
                rest = frompd({tuple(y for y in m if y[0] is not a): c})
                x, q = a.args[1], a.args[2]
                other = mul(rest, q, floordiv(x, q))
                u = add(sub(sub(t, frompd({m: c})), other), mul(rest, x))
                if len(pd(u)) < len(d):
                    return divmod_fold(u)
    return t



def elem(A, idx):
    """Scalar element of an array node."""
    idx = tuple(divmod_fold(t) if t.op == 'poly' and 'i' == t.kind else t for t in idx)
    if A.shape is None or len(A.shape) != len(idx):
        raise Unmodelled(f'rank mismatch in element access: {A.op} {A.shape} {idx}')
    if A.op == 'lam':
        return beta(A, idx)
    if not idx and A.op == 'var':
        return A
    for t in idx:
        if inds_of(t):
            return split_args(idx, lambda *i: elem(A, i))
    if A.op == 'slice':
        return elem(A.args[0], A.args[1:] + idx)
    if A.op == 'scatter':
        return scatter_read(A, idx)
    if A.op == 'arrite':
        return ite(A.args[0], elem(A.args[1], idx), elem(A.args[2], idx))
    if A.op == 'orbat':
        r = orbat_elem(A, idx)
        if r is not None:
            return r
    if A.op == 'mfn' and A.args[0] in ('chofacL', 'chofacU') and len(idx) == 2 and idx[0] is idx[1]:
        A = mk('mfn', ('cholesky', A.args[1]), 'f', shape=A.shape)
    if len(idx) == 2 and symmetric(A) and idx[0].dig > idx[1].dig:
        idx = (idx[1], idx[0])
    return mk('elem', (A,) + idx, A.kind, shape=())


def orbat_elem(A, idx):
    return None


def scatter_read(A, idx):
    return mk('elem', (A,) + tuple(idx), A.kind, shape=())


def close(vs, body):
    """Canonical binder names for the (ordered) variables vs in body. Returns (bvars, body')."""
    h = body.h
    for k in range(6):
        bs, nb = _close(vs, body, h)
        if nb.h == h or k >= 3 and nb.h < h:
            break
        # renaming changed the nesting of the binders below: name these above all of them
        h = nb.h if k < 3 else max(h, nb.h)
    else:
        raise Unmodelled('unstable nesting of binders')
    return bs, nb


def _close(vs, body, h):
    m = {}
    bs = []
    for n, v in enumerate(vs):
        sz = PROPS[v].get('size')
        if sz is not None and m and not isinstance(sz, tuple) and (sz.fs & set(m)):
            sz = subst(sz, m)
        b = bvar(h + 1 + n, sz if sz is not None else 'inf', v.kind)
        m[v] = b
        bs.append(b)
    return bs, subst(body, m)


def lam(shape, vs, body):
    """Array node with elements body[vs]."""
    shape = tuple(shape)
    if not shape:
        return body
    # eta
    if body.op == 'elem' and len(body.args) == len(vs) + 1 and (
            body.args[1:] == tuple(vs) or len(vs) == 2 and body.args[1:] == tuple(vs[::-1]) and symmetric(body.args[0])):
        A = body.args[0]
        if A.shape is not None and tuple(A.shape) == shape and not (A.fs & set(vs)):
            return A
    bs, nb = close(vs, body)
    return mk('lam', (tuple(shape), nb) + tuple(bs), body.kind, shape=shape, bound=frozenset(bs),
              extra_h=nb.h + len(bs))


def is_index(v):
    return v.op == 'bvar' or v.op == 'var' and isinstance(v.args[0], str) and v.args[0][0] == '$' and \
        (PROPS.get(v) or {}).get('size') is not None


def slice_(A, idx):
    """The array A[idx, ...] kept as a reference to A while idx is symbolic (a shared definition), expanded otherwise."""
    live = [not EXPAND[0] and any(is_index(v) for v in i.fs) for i in idx]
    if A.op != 'lam' or not any(live):
        vs = [fresh(s) for s in A.shape[len(idx):]]
        return lam(A.shape[len(idx):], vs, elem(A, idx + tuple(vs)))
    if not all(live):
        vs = [fresh(s) for s in A.shape]
        keep = [v for v, l in zip(vs, live) if l] + vs[len(idx):]
        full = [v if l else i for v, l, i in zip(vs, live, idx)] + vs[len(idx):]
        A = lam([s for s, l in zip(A.shape, live) if l] + list(A.shape[len(idx):]), keep, elem(A, tuple(full)))
        return slice_(A, tuple(i for i, l in zip(idx, live) if l))
    return mk('slice', (A,) + tuple(idx), A.kind, shape=A.shape[len(idx):])


EXPAND = [False]
_slice_m = {}


def has_slice(t):
    r = _slice_m.get(t)
    if r is None:
        r = t.op == 'slice' or any(has_slice(x) for x in _args(t))
        _slice_m[t] = r
    return r


def unslice(t):
    """Expand every shared definition."""
    if not has_slice(t):
        return t
    memo = {}

    def go(t, bind=None):
        if bind:
            t = subst(t, bind)
        if not has_slice(t):
            return t
        r = memo.get(t)
        if r is None:
            r = memo[t] = rebuild(t, go)
        return r

    EXPAND[0] = True
    try:
        return go(t)
    finally:
        EXPAND[0] = False


def share(n, lead=()):
    """The array node n with its index variables abstracted: substitutions of them do not rebuild it."""
    if n.op != 'lam':
        return n
    cap = [v for v in n.fs if v.op == 'var' and is_index(v)]
    cap = [v for v in lead if v in cap] + sorted((v for v in cap if v not in lead), key=lambda v: int(''.join(
        c for c in v.args[0] if c.isdigit()) or 0))
    if not cap or any(set(cap) & PROPS[v]['size'].fs for v in cap if isinstance(PROPS[v]['size'], T)) \
            or any(isinstance(PROPS[v]['size'], tuple) for v in cap) or any(set(cap) & s.fs for s in n.shape):
        return n
    vs = [fresh(s) for s in n.shape]
    D = lam(tuple(PROPS[v]['size'] for v in cap) + n.shape, tuple(cap) + tuple(vs), elem(n, tuple(vs)))
    return slice_(D, tuple(cap))


def beta(A, idx):
    nb = A.args[1]
    bs = A.args[2:]
    return subst(nb, dict(zip(bs, idx)))


def open_lam(A):
    vs = [fresh(s) for s in A.shape]
    return vs, beta(A, vs)


_sum_c = {}


def sum_(size, v, body):
    """Sum_{v < size} body."""
    if size is ZERO or body is ZERO:
        return ZERO
    if v not in body.fs:
        return mul(size, body) if not isinstance(size, tuple) else mul(mk('size', (size,), 'i'), body)
    n = ival(size)
    if n == 1:
        return subst(body, {v: ZERO})
    if n is not None and n <= 8:
        return add(*[subst(body, {v: const(i)}) for i in range(n)], ZERO)
    x = _mixed_radix(size, v, body)
    if x is not None:
        return x
    out = {}
    groups = {}
    for m, c in pd(body).items():
        inv = tuple((a, e) for a, e in m if v not in a.fs)
        dep = tuple((a, e) for a, e in m if v in a.fs)
        if not dep:
            out = _padd(out, _pmul({inv: c}, pd(size)))
            continue
        # [v == e] collapses the sum
        hit = None
        for a, e in dep:
            if a.op == 'ind' and a.args[0] == 'eq':
                p = a.args[1]
                for mm, k in pd(p).items():
                    if len(mm) == 1 and mm[0][0] is v and mm[0][1] == 1 and abs(k) == 1:
                        val = sub(v, p) if k == 1 else add(v, p)
                        if v not in val.fs:
                            hit = (a, val)
                if hit:
                    break
        if hit:
            rest = frompd({tuple((a, e) for a, e in m if a is not hit[0]): c})
            term = subst(rest, {v: hit[1]})
            guard = mul(le(ZERO, hit[1]), lt(hit[1], size))
            out = _padd(out, pd(mul(term, guard)))
            continue
        groups.setdefault(dep, {})
        groups[dep][inv] = groups[dep].get(inv, 0) + c
    for dep, invd in groups.items():
        s = _gram(v, dep)
        if s is None:
            s = _sum_atom(size, v, frompd({dep: Fr(1)}))
        out = _padd(out, _pmul(invd, pd(s)))
    return fin(out)


def _gram(v, dep):
    """sum_k L[i,k] L[j,k] = A[i,j] and sum_k L^-1[k,i] L^-1[k,j] = A^-1[i,j] for the Cholesky factor L of A."""
    if sum(e for _, e in dep) != 2 or any(e < 1 for _, e in dep):
        return None

    def slot(a):
        if a.op == 'elem' and len(a.args) == 3 and a.args[0].op == 'mfn':
            M, i, j = a.args
            if M.args[0] == 'cholesky' and j is v and v not in i.fs and v not in M.fs and symmetric(M.args[1]):
                return M.args[1], i, []
            if M.args[0] == 'inv' and M.args[1].op == 'mfn' and M.args[1].args[0] == 'cholesky' and i is v \
                    and v not in j.fs and v not in M.fs and symmetric(M.args[1].args[1]):
                return mk('mfn', ('inv', M.args[1].args[1]), 'f', shape=M.shape), j, []
            return None
        if a.op == 'sum' and not isinstance(a.args[0], tuple) and v not in a.args[0].fs:
            w = fresh(a.args[0])
            d = pd(subst(a.args[1], {a.args[2]: w}))
            if len(d) != 1:
                return None
            (m, c), = d.items()
            on = [(b, e) for b, e in m if v in b.fs]
            if len(on) != 1 or on[0][1] != 1:
                return None
            r = slot(on[0][0])
            if r is None:
                return None
            rest = frompd({tuple((b, e) for b, e in m if v not in b.fs): c})
            return r[0], r[1], r[2] + [(a.args[0], w, rest)]
        return None

    parts = [slot(a) for a, e in dep for _ in range(int(e))]
    if any(p is None for p in parts) or len(parts) != 2 or parts[0][0] is not parts[1][0]:
        return None
    out = elem(parts[0][0], (parts[0][1], parts[1][1]))
    for p in parts:
        for size, w, rest in p[2]:
            out = sum_(size, w, mul(out, rest))
    return out


def _mixed_radix(size, v, body):
    """A sum over a flattened index (mod(v, b), v // b with b dividing the size) is a nested sum over its digits."""
    if isinstance(size, tuple):
        return None
    seen, todo = set(), [body]
    while todo:
        t = todo.pop()
        if t in seen or v not in t.fs:
            continue
        seen.add(t)
        if t.op == 'fn' and t.args[0] in ('mod', 'floordiv') and t.args[1] is v and v not in t.args[2].fs:
            b = t.args[2]
            q = div(size, b)
            if sign(b) == 1 and all(e >= 0 for m in pd(q) for _, e in m) and all(c.denominator == 1 for c in pd(q).values()):
                hi, lo = fresh(q), fresh(b)
                new = subst(body, {v: add(mul(hi, b), lo)})
                return sum_(q, hi, sum_(b, lo, new))
        todo.extend(x for x in _args(t))
    return None


def _args(t):
    if t.op == 'poly':
        return [a for m in pd(t) for a, _ in m]
    out = []

    def go(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)

    go(t.args)
    return out


def _sum_atom(size, v, body):
    """Nested sums are one multi-index sum: summed in an order that depends on its factors only."""
    d = pd(body)
    if len(d) != 1 or isinstance(size, tuple):
        return _mk_sum(size, v, body)
    (m, c), = d.items()
    if not any(a.op == 'sum' and e == 1 for a, e in m):
        return _mk_sum(size, v, body)
    idx, fac, co = [(size, v)], {}, [c]

    def take(m):
        for a, e in m:
            if a.op == 'sum' and e == 1 and not isinstance(a.args[0], tuple) \
                    and not any(w in a.args[0].fs for _, w in idx):
                w = fresh(a.args[0])
                ib = pd(subst(a.args[1], {a.args[2]: w}))
                if len(ib) == 1:
                    (mm, k), = ib.items()
                    idx.append((a.args[0], w))
                    co[0] *= k
                    take(mm)
                    continue
            fac[a] = fac.get(a, 0) + e

    take(m)
    fac = [(a, e) for a, e in fac.items() if e != 0]
    if len(idx) == 1 or any(w in s.fs for _, w in idx for s, _ in idx):
        return _mk_sum(size, v, body)
    for sw in idx:
        w = sw[1]
        g = _gram(w, [(a, e) for a, e in fac if w in a.fs])
        if g is not None:
            t = mul(const(co[0]), g, *[powq(a, e) for a, e in fac if w not in a.fs])
            for s1, w1 in idx:
                if w1 is not w:
                    t = sum_(s1, w1, t)
            return t
    if any(a.op == 'ind' and a.args[0] == 'eq' for a, e in fac):
        return _mk_sum(size, v, body)  # may collapse: no canonical order
    vs = [w for _, w in idx]
    color = _refine({w: s.dig.hex() for s, w in idx}, vs, fac, _anon)
    if len(set(color.values())) < len(vs):
        # tie: told apart by the free indices only
        color = _refine(color, vs, fac, lambda t: t.dig.hex())
    while len(set(color.values())) < len(vs):
        cs = list(color.values())
        w = min((w for w in vs if cs.count(color[w]) > 1), key=lambda w: (color[w], w.dig))
        color = _refine({**color, w: _h(color[w])}, vs, fac, _anon)
    order = sorted(idx, key=lambda sw: color[sw[1]])
    r = _nest(order, fac, co[0])
    return _mk_sum(size, v, body) if r is None else r


def _refine(color, vs, fac, dig):
    """Colours of the summation indices, refined by the factors they meet in until nothing changes."""
    n = len(set(color.values()))
    on = {w: [(a, e) for a, e in fac if w in a.fs] for w in vs}
    for _ in range(len(vs)):
        cv = {u: _cvar(c) for u, c in color.items()}
        new = {w: _h(repr((color[w], sorted((str(e), dig(subst(a, {**{u: cv[u] for u in vs if u in a.fs}, w: _cvar('me')})))
                                            for a, e in on[w])))) for w in vs}
        k = len(set(new.values()))
        color = new
        if k == n or k == len(vs):
            break
        n = k
    return color


def _nest(order, fac, c):
    """The nested sum over the ordered indices, each summed over the factors that need it."""
    tree, cur = {}, list(fac)
    for s, w in reversed(order):
        tree[w] = [x for x in cur if w in (x[0].fs if isinstance(x[0], T) else x[2])]
        rest = [x for x in cur if not any(x is y for y in tree[w])]
        fs = frozenset().union(*[x[0].fs if isinstance(x[0], T) else x[2] for x in tree[w]]) - {w}
        cur = rest + [((w,), 1, fs)] if tree[w] else rest + [(s, 1)]
    size = {w: s for s, w in order}
    lev = None
    for _ in range(4):
        hs = {}

        def level(w):
            if w not in hs:
                h = 0
                for x in tree[w]:
                    h = max(h, level(x[0][0]) if isinstance(x[0], tuple) else (lev[x[0]] if lev else x[0].h))
                hs[w] = max(h, size[w].h) + 1
            return hs[w]

        bv = {w: bvar(level(w), size[w]) for w in tree if tree[w]}
        new = {a: subst(a, {w: b for w, b in bv.items() if w in a.fs}) for a, _ in fac}
        lv = {a: n.h for a, n in new.items()}
        if all(lv[a] == (lev[a] if lev else a.h) for a, _ in fac):
            break
        lev = lv
    else:
        return None
    co = [c]

    def build(items):
        out = ()
        for x in items:
            if isinstance(x[0], tuple):
                w = x[0][0]
                d = build(tree[w])
                if d is None:
                    return None
                nb = frompd({d: Fr(1)})
                t = mk('sum', (size[w], nb, bv[w]), 'i' if nb.kind in 'ib' else 'f', bound=frozenset((bv[w],)),
                       extra_h=nb.h + 1)
                out = out + ((t, Fr(1)),)
            else:
                d = pd(powq(new.get(x[0], x[0]), x[1]))
                if len(d) != 1:
                    return None
                (m, k), = d.items()
                co[0] *= k
                out = out + m
        out = _mono_norm(out)
        if len(out) != 1:
            return None
        (m, k), = out.items()
        co[0] *= k
        return m

    if any(not tree[w] for w in tree):
        return None
    m = build(cur)
    return None if m is None else frompd({m: co[0]})


def _cvar(c):
    v = mk('var', ('%' + c, 0), 'i', shape=())
    return v


def _h(x):
    import hashlib
    return hashlib.blake2b(x.encode(), digest_size=8).hexdigest()


def _mk_sum(size, v, body):
    if body.op == 'log' and body.args[0].op == 'elem':
        e = body.args[0]
        A = e.args[0]
        if A.op == 'mfn' and A.args[0] == 'cholesky' and e.args[1:] == (v, v) and v not in A.fs:
            # log det of the factorised matrix
            return mul(const(Fr(1, 2)), LOGDET[0](A.args[1]))
    PROPS.setdefault(v, {})['size'] = size
    bs, nb = close([v], body)
    d = pd(nb)
    if len(d) == 1:
        (m, c), = d.items()
        if c != 1:
            # the orientation of a difference may depend on the bound name: keep the coefficient outside
            return mul(const(c), _mk_sum(size, bs[0], frompd({m: Fr(1)})))
    return mk('sum', (size, nb, bs[0]), 'i' if body.kind in 'ib' else 'f', bound=frozenset(bs), extra_h=nb.h + 1)


def red(name, size, v, body):
    """Other reductions (max, min, prod, any, all, argmax ...)."""
    if v not in body.fs and name in ('max', 'min', 'any', 'all'):
        return body
    n = ival(size)
    if n == 1 and name in ('max', 'min', 'prod', 'any', 'all'):
        return subst(body, {v: ZERO})
    if n is not None and 1 < n <= 4 and name == 'prod':
        return mul(*[subst(body, {v: const(i)}) for i in range(n)])
    if name in ('max', 'min'):
        # pull out additive invariants and positive factors
        inv = {m: c for m, c in pd(body).items() if not any(v in a.fs for a, e in m)}
        if inv:
            rest = frompd({m: c for m, c in pd(body).items() if m not in inv})
            return add(frompd(inv), red(name, size, v, rest))
        d = pd(body)
        if len(d) == 1:
            (m, c), = d.items()
            pos = tuple((a, e) for a, e in m if v not in a.fs and is_pos(a))
            if pos or abs(c) != 1:
                rest = frompd({tuple(x for x in m if x not in pos): Fr(1 if c > 0 else -1)})
                return mul(frompd({pos: abs(c)}), red(name, size, v, rest))
    PROPS.setdefault(v, {})['size'] = size
    bs, nb = close([v], body)
    kind = 'i' if name in ('argmax', 'argmin') else ('b' if name in ('any', 'all') else body.kind)
    return mk('red', (name, size, nb, bs[0]), kind, bound=frozenset(bs), extra_h=nb.h + 1)


# ----------------------------------------------------------------------------------------------------------------------
# generic application / random draws
# ----------------------------------------------------------------------------------------------------------------------
def app(head, args, kind, shape):
    """Result array/scalar node of an opaque callable; args is a tuple of nodes / hashables / nested tuples."""
    A = mk('app', (head, tuple(args)) + tuple(shape), kind, shape=tuple(shape))
    return A


def scal(A):
    """A rank-0 array atom as a scalar."""
    return elem(A, ()) if A.shape == () and A.op not in ('poly', 'elem') and A.op in ATOM_ARR else A


ATOM_ARR = {'app', 'rand', 'orbat', 'cvar', 'arrfn', 'mfn', 'out', 'scatter'}


# ----------------------------------------------------------------------------------------------------------------------
# substitution / rebuilding
# ----------------------------------------------------------------------------------------------------------------------
_subst_c = {}


def subst(t, m):
    if not m:
        return t
    keys = [k for k in m if k in t.fs]
    if not keys:
        return t
    ck = (t, tuple((k, m[k]) for k in sorted(keys, key=lambda x: x.dig)))
    r = _subst_c.get(ck)
    if r is None:
        r = rebuild(t, lambda x, bind=None: subst(x, _ext({k: m[k] for k in keys}, bind)))
        if len(_subst_c) > 400000:
            _subst_c.clear()
        _subst_c[ck] = r
    return r


def _ext(m, bind):
    if not bind:
        return m
    m = dict(m)
    m.update(bind)
    return m


def mapargs(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(mapargs(y, f) for y in x)
    return x


ORB_HOOK = [None]  # set by loops: rebuild of orbat nodes


def rebuild(t, f):
    """Rebuild a node applying f(child, bind=None) to children through the smart constructors."""
    op = t.op
    if op in ('var', 'bvar', 'cvar'):
        return f_leaf(t, f)
    if op == 'poly':
        d = {}
        for mo, c in t.args:
            cur = {ONE_M: c}
            for a, e in mo:
                na = f(a)
                if na is a:
                    cur = _pmul(cur, {((a, e),): Fr(1)})
                else:
                    cur = _pmul(cur, pd(powq(na, e)))
            d = _padd(d, cur)
        return fin(d)
    if op == 'elem':
        A = f(t.args[0])
        idx = tuple(f(x) for x in t.args[1:])
        return elem(A, idx)
    if op == 'ind':
        p = f(t.args[1])
        return gt0(p) if t.args[0] == 'gt' else eq0(p) if t.args[0] == 'eq' else \
            mk('ind', (t.args[0],) + tuple(mapargs(x, f) for x in t.args[1:]), 'b')
    if op == 'E':
        return exp(f(t.args[0]))
    if op == 'log':
        return log(f(t.args[0]))
    if op == 'grp':
        return f(t.args[0])
    if op == 'abs':
        return absv(f(t.args[0]))
    if op == 'fn':
        args = tuple(f(x) for x in t.args[1:])
        return refn(t.args[0], args, t.kind)
    if op == 'sum':
        size = f(t.args[0])
        v = fresh(size, tag='s')
        return sum_(size, v, f(t.args[1], {t.args[2]: v}))
    if op == 'red':
        size = f(t.args[1])
        v = fresh(size, tag='s')
        return red(t.args[0], size, v, f(t.args[2], {t.args[3]: v}))
    if op == 'lam':
        shape = tuple(mapargs(s, f) for s in t.args[0])
        vs = [fresh(s) for s in shape]
        return lam(shape, vs, f(t.args[1], dict(zip(t.args[2:], vs))))
    if op == 'orbat':
        return ORB_HOOK[0](t, f)
    if op == 'slice':
        return slice_(f(t.args[0]), tuple(f(x) for x in t.args[1:]))
    if op == 'kite':
        c, a, b = (f(x) for x in t.args)
        return ite(c, a, b)
    if op == 'arrite':
        c, a, b = (f(x) for x in t.args)
        return arrite(c, a, b)
    if op == 'ktok' or not t.args:
        return mk(op, tuple(mapargs(a, f) for a in t.args), t.kind, shape=t.shape)
    # app, rand, arrfn, mfn, out, scatter, size, ksplit, kfold ...
    shape = None if t.shape is None else tuple(mapargs(s, f) for s in t.shape)
    args = tuple(mapargs(a, f) for a in t.args)
    if op == 'app':
        return mk('app', args, t.kind, shape=shape)
    if op == 'ksplit':
        return ksplit(*args)
    hook = REBUILD_HOOKS.get(op)
    if hook:
        return hook(t, args, shape)
    return mk(op, args, t.kind, shape=shape)


REBUILD_HOOKS = {}


def f_leaf(t, f):
    r = f(t)
    return r


def refn(name, args, kind):
    if name == 'floordiv':
        return floordiv(*args)
    if name == 'mod':
        return mod(*args)
    if name == 'floor':
        return floor_(*args)
    h = FN_NORM.get(name)
    if h:
        return h(*args)
    return fn(name, *args, kind=kind)


FN_NORM = {'max': lambda a, b: maxv(a, b)}
GUARD = Fr(1, 10 ** 6)


def arrite(c, A, B):
    k = cval(c)
    if k is not None:
        return A if k else B
    if A is B:
        return A
    vs = [fresh(s) for s in A.shape]
    return lam(A.shape, vs, ite(c, elem(A, vs), elem(B, vs)))


# overwrite leaf handling in subst: leaves are looked up directly
def _subst_leaf(t, m):
    return m.get(t, t)


_old_subst = subst


def subst(t, m):  # noqa: F811
    if not m:
        return t
    if t.op in ('var', 'bvar', 'cvar'):
        if t in m:
            return m[t]
        # symbols whose declared extent mentions substituted symbols keep their identity
        if t.op == 'cvar' or not any(k in t.fs for k in m):
            return t
        if t.op == 'bvar':
            sz = t.args[1]
            return bvar(t.args[0], mapargs(sz, lambda x: subst(x, m)), t.kind)
        return t
    keys = [k for k in m if k in t.fs]
    if not keys:
        return t
    keys.sort(key=lambda x: x.dig)
    ck = (t, tuple((k, m[k]) for k in keys), tuple(FACTS))
    r = _subst_c.get(ck)
    if r is None:
        mm = {k: m[k] for k in keys}
        r = rebuild(t, lambda x, bind=None: subst(x, _ext(mm, bind)))
        if len(_subst_c) > 600000:
            _subst_c.clear()
        _subst_c[ck] = r
    return r


# ----------------------------------------------------------------------------------------------------------------------
# keys
# ----------------------------------------------------------------------------------------------------------------------
def ksplit(key, n, i):
    return mk('ksplit', (key, n, i), 'k', shape=())


def kfold(key, d):
    return mk('kfold', (key, d), 'k', shape=())


def kseed(s):
    return mk('kseed', (s,), 'k', shape=())


# ----------------------------------------------------------------------------------------------------------------------
# pretty printing
# ----------------------------------------------------------------------------------------------------------------------
def pp(t, depth=8):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(pp(x, depth) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '…'
    o, a = t.op, t.args
    D = depth - 1
    if o == 'poly':
        if not a:
            return '0'
        parts = []
        for m, c in a:
            f = '*'.join(pp(x, D) + ('' if e == 1 else f'^{e}') for x, e in m)
            parts.append((f'{c}*' if c != 1 else '') + f if f else str(c))
        s = ' + '.join(parts)
        return '(' + s + ')' if len(parts) > 1 else s
    if o == 'var':
        return a[0]
    if o == 'bvar':
        return f'#{a[0]}'
    if o == 'cvar':
        return f'carry{a[1]}'
    if o == 'elem':
        return pp(a[0], D) + '[' + ', '.join(pp(x, D) for x in a[1:]) + ']'
    if o == 'lam':
        return f'<{",".join(pp(b) for b in a[2:])} -> {pp(a[1], D)}>'
    if o == 'app':
        return f'{pp(a[0])}(' + ', '.join(pp(x, D) for x in a[1]) + ')'
    if o == 'rand':
        return f'{a[0]}~(' + ', '.join(pp(x, D) for x in a[1:]) + ')'
    if o == 'sum':
        return f'Σ[{pp(a[2])}<{pp(a[0], D)}]({pp(a[1], D)})'
    if o == 'red':
        return f'{a[0]}[{pp(a[3])}<{pp(a[1], D)}]({pp(a[2], D)})'
    if o == 'E':
        return f'exp({pp(a[0], D)})'
    if o == 'ind':
        return f'[{pp(a[1], D)}{ {"gt": ">0", "eq": "==0"}.get(a[0], a[0]) }]'
    if o == 'grp':
        return f'({pp(a[0], D)})'
    if o == 'ksplit':
        return f'split({pp(a[0], D)},{pp(a[1], D)})[{pp(a[2], D)}]'
    if o == 'orbat':
        return f'iter{a[1]}@{pp(a[2], D)}{{' + '; '.join(
            f'init={pp(c[0], D)} step={pp(c[1], D)}' for c in a[0].args[1]) + '}'
    return f'{o}(' + ', '.join(pp(x, D) for x in a) + ')'
