"""Equality of value graphs modulo the naming of independent PRNG keys."""
from itertools import permutations, product
from .terms import *
from . import terms as tm
from .arr import Arr, lift, replace_node
from .loops import _has_key, unfold
from . import loops
import re


# ----------------------------------------------------------------------------------------------------------------------
# keys
# ----------------------------------------------------------------------------------------------------------------------
def map_keys(t, fn, memo=None):
    """Rebuild t with every maximal key-typed scalar subterm K replaced by fn(K, consumer)."""
    if memo is None:
        memo = {}
    if t.kind == 'k' and not t.shape and t.op not in ('app',):
        return fn(t)
    if not _has_key(t):
        return t
    r = memo.get(t)
    if r is None:
        r = tm.rebuild(t, lambda x, bind=None: map_keys(subst(x, bind) if bind else x, fn, memo if not bind else {}))
        memo[t] = r
    return r


def _is_index(v):
    return v.op in ('bvar', 'cvar') or (v.op == 'var' and v.args[0].startswith('$') and not v.args[0].startswith('$d'))


def _ord(v):
    m = re.search(r'\d+', str(v.args[0]))
    return (int(m.group()) if m else 0, v.dig)


def _hole(v, i):
    sz = tm.PROPS.get(v, {}).get('size')
    tag = sz.dig.hex()[:10] if isinstance(sz, T) and not any(_is_index(u) for u in sz.fs) else ''
    h = mk('var', (f'?h{i}{tag}', 0), v.kind, shape=())
    if tag:
        tm.PROPS[h] = tm.PROPS.get(v, {})
    else:
        tm.PROPS[h] = {'nonneg': True, 'size': None} if tm.PROPS.get(v, {}).get('nonneg') or sz is not None else {}
    return h


def key_pattern(K):
    """(pattern, deps): K with its index variables abstracted."""
    deps = sorted([v for v in K.fs if _is_index(v)], key=_ord)
    return subst(K, {v: _hole(v, i) for i, v in enumerate(deps)}), tuple(deps)


def skeleton(K):
    """(skel, idxs): the derivation of K with its non-literal positions abstracted."""
    idxs = []

    def go(K):
        if K.op == 'ksplit':
            b = go(K.args[0])
            n, i = K.args[1], K.args[2]
            if cval(n) is not None and cval(i) is not None:
                return ('s', b, n.dig, i.dig)
            idxs.append(i)
            return ('s', b, n.dig, '?')
        if K.op == 'kfold':
            b = go(K.args[0])
            if cval(K.args[1]) is not None:
                return ('f', b, K.args[1].dig)
            idxs.append(K.args[1])
            return ('f', b, '?')
        if K.op == 'elem' and K.args[0].op == 'orbat' and not any(_is_index(v) for v in K.args[0].args[0].fs):
            idxs.append(K.args[0].args[2])
            return ('o', K.args[0].args[0].dig, K.args[0].args[1])
        if K.op == 'elem' and K.args[0].op == 'var':
            idxs.extend(K.args[1:])
            return ('a', K.args[0].dig)
        p, d = key_pattern(K)
        idxs.extend(d)
        return ('p', p.dig)

    return go(K), tuple(idxs)


def _disjoint(x, y):
    """The two index expressions (over renamed-apart index variables) never coincide."""
    d = sub(x, y)
    s = sign(d)
    if s in (1, -1) or sign(neg(d)) == 1:
        return True
    from math import gcd
    g, c0 = 0, Fr(0)
    for m, c in pd(d).items():
        if not m:
            c0 = c
        elif c.denominator == 1 and all(a.kind in 'ib' for a, e in m) and all(e > 0 for a, e in m):
            g = gcd(g, int(c))
        else:
            return False
    return g > 1 and c0 % g != 0


def _apart(x, tag):
    m = {}
    for v in sorted(x.fs, key=lambda v: v.dig):
        if v.op == 'var' and v.args[0].startswith('?h'):
            f = fresh(tm.PROPS.get(v, {}).get('size'), tag=tag)
            tm.PROPS[f] = tm.PROPS.get(v, {})
            m[v] = f
    return subst(x, m)


class Fam:
    """A set of key derivations that may coincide; canonical name + dependence on loop indices."""

    def __init__(self, skel, K):
        self.skel, self.K = skel, K
        self.members = []  # tuples of hole expressions
        self.sig, self.weak, self.loc = set(), set(), None
        self.pat, _ = key_pattern(K)
        self.lo = self.hi = None

    def order(self):
        return (str(self.skel), [tuple(e.dig for e in m) for m in self.members][0])

    def finish(self):
        if len(self.members) > 1:
            self.lo, self.hi = [], []
            for j in range(len(self.members[0])):
                es = [m[j] for m in self.members]
                self.lo.append(_extreme(es, -1))
                self.hi.append(_extreme(es, 1))

    def deps(self, vars_, idxs, rev):
        if len(self.members) == 1:
            return vars_
        out = []
        for j, e in enumerate(idxs):
            if rev and self.hi[j] is not None:
                out.append(sub(self.hi[j], e))
            elif not rev and self.lo[j] is not None:
                out.append(sub(e, self.lo[j]))
            else:
                out.append(e)
        return tuple(out)


def _extreme(es, s):
    """Provable common lower (s=-1) / upper (s=+1) bound attained by one of the expressions."""
    cand = []
    for e in es:
        m = {}
        for v in sorted(e.fs, key=lambda v: v.dig):
            if v.op == 'var' and v.args[0].startswith('?h'):
                c = pd(e).get(((v, Fr(1)),))
                sz = tm.PROPS.get(v, {}).get('size')
                if c is None:
                    return None
                if (c > 0) == (s < 0):
                    m[v] = ZERO
                else:
                    if not isinstance(sz, T):
                        return None
                    m[v] = sub(sz, ONE)
        cand.append(subst(e, m))
    for c in cand:
        if all((sign(sub(c, o) if s > 0 else sub(o, c)) or 0) >= 0 and
               sign(sub(c, o) if s > 0 else sub(o, c)) is not None for o in cand):
            return c
    return None


def tok(name, deps):
    return mk('ktok', (name,) + tuple(deps), 'k', shape=())


class Table:
    """Key families occurring in a list of value graphs."""

    def __init__(self, nodes):
        occ = {}

        def note(K):
            sk, idxs = skeleton(K)
            vs = sorted([v for v in K.fs if _is_index(v)], key=_ord)
            hm = {v: _hole(v, i) for i, v in enumerate(vs)}
            hx = tuple(subst(e, hm) for e in idxs)
            occ.setdefault(sk, {}).setdefault(hx, K)
            return tok('*', tuple(vs))

        for n in nodes:
            map_keys(n, note)
        self.fams, self.index = [], {}
        for sk in sorted(occ, key=str):
            items = sorted(occ[sk].items(), key=lambda kv: tuple(e.dig for e in kv[0]))
            groups = []
            for hx, K in items:
                hit = [g for g in groups if any(_may_meet(hx, o) for o, _ in g)]
                ng = [(hx, K)]
                for g in hit:
                    groups.remove(g)
                    ng = g + ng
                groups.append(ng)
            for g in groups:
                f = Fam(sk, g[0][1])
                f.members = [hx for hx, _ in g]
                f.finish()
                self.fams.append(f)
                for hx, _ in g:
                    self.index[(sk, hx)] = f
        self._consumers(nodes)

    def lookup(self, K):
        sk, idxs = skeleton(K)
        vs = sorted([v for v in K.fs if _is_index(v)], key=_ord)
        hm = {v: _hole(v, i) for i, v in enumerate(vs)}
        hx = tuple(subst(e, hm) for e in idxs)
        return self.index.get((sk, hx)), tuple(vs), idxs

    def name_all(self, nodes, names, revs=()):
        def f(K):
            fam, vs, idxs = self.lookup(K)
            if fam is None or fam not in names:
                return tok('!' + (fam.K if fam else K).dig.hex(), vs)
            return tok(names[fam], fam.deps(vs, idxs, fam in revs))

        memo = {}
        return [map_keys(n, f, memo) for n in nodes]

    def multi(self):
        return [f for f in self.fams if len(f.members) > 1]

    def _consumers(self, nodes):
        seen = set()

        def anon(k):
            fam, vs, idxs = self.lookup(k)
            return tok('*', vs if fam is not None and len(fam.members) == 1 else ())

        def walk(t):
            if not _has_key(t):
                return
            ks = []

            def direct(x):
                if isinstance(x, tuple):
                    for y in x:
                        direct(y)
                elif isinstance(x, T):
                    if x.kind == 'k' and not x.shape:
                        ks.append(x)

            direct(t.args)
            for K in ks:
                fam, vs, idxs = self.lookup(K)
                if fam is not None:
                    er = map_keys(t, anon)
                    fam.sig.add(er.dig)
                    fam.weak.add((t.op, str(t.args[0]) if not isinstance(t.args[0], T) else t.args[0].op,
                                  len(vs) if len(fam.members) == 1 else '*'))
                    if fam.loc is None:
                        fam.loc = tm.ORIGIN.get(t.dig)

            def go(x, bind=None):
                y = subst(x, bind) if bind else x
                if isinstance(y, T) and not (y.kind == 'k' and not y.shape):
                    if y not in seen:
                        seen.add(y)
                        walk(y)
                return y
            tm.rebuild(t, go)

        for n in nodes:
            if not (n.kind == 'k' and not n.shape):
                walk(n)
            else:
                fam, _, _ = self.lookup(n)
                fam.sig.add(b'out')
                fam.weak.add(('out',))


def _may_meet(x, y):
    x = tuple(_apart(e, 'p') for e in x)
    y = tuple(_apart(e, 'q') for e in y)
    return not any(_disjoint(p, q) for p, q in zip(x, y))


def ancestors(K):
    out = []
    while K.op in ('ksplit', 'kfold'):
        K = K.args[0]
        out.append(K)
    return out


def overlap(p, q):
    """May two key patterns (with hole variables) denote the same or dependent keys?  Returns reason or None."""
    if p is q:
        return None

    def ren(x, tag):
        hs = {v: fresh(tm.PROPS.get(v, {}).get('size'), tag='q') for v in sorted(x.fs, key=lambda v: v.dig) if v.op == 'var' and v.args[0].startswith('?h')}
        for v, f in hs.items():
            tm.PROPS[f] = tm.PROPS.get(v, {})
        return subst(x, hs)

    a, b = ren(p, 'a'), ren(q, 'b')

    def chain(K):
        c = [K]
        while True:
            x = c[-1]
            if x.op in ('ksplit', 'kfold'):
                c.append(x.args[0])
            elif x.op == 'elem' and x.args[0].op == 'orbat':
                # threaded key: every iterate descends from the initial key (and equals it at iteration 0)
                c.append(x.args[0].args[0].args[1][0][0])
            else:
                break
        return c[::-1]

    ca, cb = chain(a), chain(b)

    def may_eq(x, y):
        if x is y:
            return True
        if x.op != y.op:
            return False
        if x.op == 'ksplit':
            if not may_eq(x.args[0], y.args[0]):
                return False
            d = sub(x.args[2], y.args[2])
            if x.args[1] is not y.args[1]:
                return True
            s = sign(d)
            if s in (1, -1) or sign(neg(d)) == 1:
                return False
            return True
        if x.op == 'kfold':
            if not may_eq(x.args[0], y.args[0]):
                return False
            s = sign(sub(x.args[1], y.args[1]))
            return not (s in (1, -1))
        if x.op == 'kseed':
            return cval(sub(x.args[0], y.args[0])) in (None, 0)
        if x.op == 'elem' and x.args[0].op == 'orbat' and y.args[0].op == 'orbat':
            x, y = x.args[0], y.args[0]
            # same threaded-key recurrence at possibly different iterations
            if x.args[0] is y.args[0]:
                s = sign(sub(x.args[2], y.args[2]))
                if s in (1, -1):
                    return False
                return True
            return False
        return False

    # equal keys, or one an ancestor of the other, or sibling families split differently
    for i, x in enumerate(ca):
        for j, y in enumerate(cb):
            if (i == len(ca) - 1 or j == len(cb) - 1) and may_eq(x, y):
                if i == len(ca) - 1 and j == len(cb) - 1:
                    return 'the same key is consumed at two places'
                return 'a key is consumed and also split for other consumers'
    return None


def is_zero(t):
    return cval(t) == 0


def self_collision(p):
    """A threaded key consumed directly, or split for a consumer the way it is split for the next iteration."""
    K, path = p, []
    while K.op in ('ksplit', 'kfold'):
        path.append(K)
        K = K.args[0]
    if not (K.op == 'elem' and K.args[0].op == 'orbat'):
        return None
    orb = K.args[0].args[0]
    if not K.args[0].args[2].fs:
        return None
    upd = orb.args[1][0][1]
    steps = []
    while upd.op in ('ksplit', 'kfold'):
        steps.append(upd)
        upd = upd.args[0]
    if not any(v.op == 'bvar' or v.op == 'var' and str(v.args[0]).startswith('$') for v in K.args[0].args[2].fs):
        return None  # the final state: no further step is taken from it
    if not path:
        return 'a key is consumed and also carried on to the next iteration'
    if not steps:
        return 'a key is carried unchanged through the loop'
    while True:
        a, b = path.pop(), steps.pop()
        if a.op != b.op:
            return 'a key is split and folded'
        if a.op == 'ksplit':
            if a.args[1] is not b.args[1]:
                return 'one key is split twice'
            d = sub(a.args[2], b.args[2])
            if is_zero(d) and path and steps:
                continue
            if sign(d) not in (1, -1) and sign(neg(d)) != 1:
                return 'the carried key is also consumed'
        return None


def key_check(tab):
    """Independence of all consumed keys. Returns list of (reason, K1, K2, loc)."""
    bad = []
    for f in tab.fams:
        r = self_collision(f.pat)
        if r:
            bad.append((r, f.pat, f.pat, f.loc))
    for i, f in enumerate(tab.fams):
        for g in tab.fams[:i]:
            if f.skel == g.skel:
                continue
            r = overlap(f.pat, g.pat)
            if r:
                bad.append((r, f.pat, g.pat, f.loc or g.loc))
    return bad


class Mismatch(Exception):
    def __init__(self, msg, loc=None, detail=''):
        super().__init__(msg)
        self.loc, self.detail = loc, detail


def match(impl, spec, labels, check_keys=True):
    """Raise Mismatch unless impl[i] == spec[i] for all i under one bijective renaming of independent keys."""
    ii, si = Table(impl), Table(spec)
    if check_keys:
        bad = key_check(ii)
        if bad:
            r, a, b, loc = bad[0]
            raise Mismatch(f'PRNG keys are not independent: {r} ({pp(a, 5)} / {pp(b, 5)})', loc)
    names_s = {f: f'k{n}' for n, f in enumerate(sorted(si.fams, key=lambda f: f.order()))}
    SP = si.name_all(spec, names_s)
    best = None
    tried = 0
    multi = ii.multi()[:4]
    revopts = [frozenset(f for f, b in zip(multi, bits) if b) for bits in product((0, 1), repeat=len(multi))]
    for nm in candidate_namings(ii, si, names_s):
        for revs in revopts:
            tried += 1
            IM = ii.name_all(impl, nm, revs)
            bad = [k for k in range(len(IM)) if IM[k] is not SP[k] and not equal(IM[k], SP[k])]
            if not bad:
                return {'keys': len(ii.fams), 'namings_tried': tried}
            if best is None or len(bad) < len(best[0]):
                best = (bad, IM)
        if tried > 200:
            break
    if best is None:
        # different number / kind of random draws
        miss = describe_draws(ii, si)
        raise Mismatch(f'the random draws differ from the reference law: {miss[0]}', miss[1])
    bad, IM = best
    if len(bad) <= 3 and any(has_orbit(IM[k]) and has_orbit(SP[k]) for k in bad):
        # trajectories read one step later: write both sides through the step
        bad = [k for k in bad if not unfolded_equal(IM[k], SP[k])]
        if not bad:
            return {'keys': len(ii.fams), 'namings_tried': tried}
    k = bad[0]
    a, b, loc = locate(IM[k], SP[k])
    raise Mismatch(f'{labels[k]} differs from the reference law', loc,
                   detail=f'computed: {pp(a, 9)}\n  required: {pp(b, 9)}')


def has_orbit(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T) and x not in seen:
            if x.op == 'orbat':
                return True
            seen.add(x)
            todo.extend(x.args)
    return False


_uf_c = {}


def unfold_later(t):
    """Every x@(i + c), c >= 1 and i an index, written through one step from x@(i + c - 1)."""
    if not has_orbit(t):
        return t
    r = _uf_c.get(t)
    if r is not None:
        return r
    if t.op == 'elem' and t.args[0].op == 'orbat' and not t.args[0].shape:
        w = _later(t.args[0])
        if w is not None:
            r = unfold_later(w)
    elif t.op == 'orbat' and t.shape:
        w = _later(t)
        if w is not None:
            r = unfold_later(w)
    if r is None:
        r = tm.rebuild(t, lambda x, bind=None: unfold_later(subst(x, bind) if bind else x))
    _uf_c[t] = r
    return r


def _later(A):
    i = A.args[2]
    d = pd(i)
    c = d.get(ONE_M, 0)
    if c >= 1 and len(d) == 2 and any(m and k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('var', 'bvar')
                                      and tm.sign(m[0][0]) is not None for m, k in d.items()):
        w = unfold(A.args[0], A.args[1], i)
        return None if w is A or w.op == 'elem' and w.args[0] is A else w
    return None


def unfolded_equal(a, b):
    x, y = unfold_later(a), unfold_later(b)
    return x is y or (x is not a or y is not b) and equal(x, y)


def describe_draws(ii, si):
    from collections import Counter
    ci = Counter(str(sorted(map(str, f.weak))) for f in ii.fams)
    cs = Counter(str(sorted(map(str, f.weak))) for f in si.fams)
    extra = list((ci - cs).elements())
    lack = list((cs - ci).elements())
    loc = None
    for f in ii.fams:
        if str(sorted(map(str, f.weak))) in extra:
            loc = f.loc
            break
    return f'not in the law {extra[:3]}; required by the law {lack[:3]}', loc


def candidate_namings(ii, si, names_s):
    from collections import defaultdict
    gs, gi = defaultdict(list), defaultdict(list)
    for f in si.fams:
        gs[frozenset(f.sig)].append(f)
    for f in ii.fams:
        gi[frozenset(f.sig)].append(f)
    nm = {}
    rest_i, rest_s = [], []
    groups = []
    for k in {**gs, **gi}:
        a, b = gi.get(k, []), gs.get(k, [])
        if len(a) == len(b) == 1:
            nm[a[0]] = names_s[b[0]]
        elif len(a) == len(b):
            groups.append((a, b))
        else:
            rest_i += a
            rest_s += b
    ws, wi = defaultdict(list), defaultdict(list)

    def weak(f):
        return frozenset(w[:2] for w in f.weak)

    for f in rest_s:
        ws[weak(f)].append(f)
    for f in rest_i:
        wi[weak(f)].append(f)
    for k in {**ws, **wi}:
        a, b = wi.get(k, []), ws.get(k, [])
        if len(a) != len(b):
            return
        groups.append((a, b))
    opts = []
    for a, b in groups:
        opts.append([list(zip(pa, b)) for pa in permutations(a)])
    n = 0
    for combo in product(*opts):
        m = dict(nm)
        for prs in combo:
            for x, y in prs:
                m[x] = names_s[y]
        yield m
        n += 1
        if n > 200:
            return


# ----------------------------------------------------------------------------------------------------------------------
# deep equality
# ----------------------------------------------------------------------------------------------------------------------
_eq_c = {}
_budget = [0]


def equal(a, b, top=True):
    if a is b:
        return True
    if top:
        _budget[0] = 4000
    return _equal(a, b)


def _equal(a, b):
    if a is b:
        return True
    _budget[0] -= 1
    if _budget[0] < 0:
        return False
    key = (a, b, tuple(tm.FACTS))
    r = _eq_c.get(key)
    if r is not None:
        return r
    _eq_c[key] = False
    r = _equal0(a, b)
    _eq_c[key] = r
    return r


def _shape_eq(a, b):
    sa, sb = a.shape or (), b.shape or ()
    return len(sa) == len(sb) and all(_equal(x, y) for x, y in zip(sa, sb))


def _by_entries(a, b, vs, shape):
    """Short axes of literal size, entry by entry."""
    lit = [(k, tm.ival(s)) for k, s in enumerate(shape)]
    lit = [(k, n) for k, n in lit if n is not None and 1 < n <= 4]
    if not lit:
        return False
    k, n = lit[0]
    for i in range(n):
        ws = list(vs)
        ws[k] = const(i)
        x, y = elem(a, ws), elem(b, ws)
        if _equal(x, y):
            continue
        rest = tuple(s for j, s in enumerate(shape) if j != k)
        us = [v for j, v in enumerate(ws) if j != k]
        if len(lit) == 1 or not _by_entries(lam(rest, us, x), lam(rest, us, y), [fresh(s) for s in rest], rest):
            return False
    return True


def _equal0(a, b):
    sa, sb = a.shape or (), b.shape or ()
    if (sa or sb) and a.op != 'orb':
        if not _shape_eq(a, b):
            return False
        if a.op == b.op == 'orbat':
            if _args_equal(a.args, b.args):
                return True
            if _orb_unfold(a, b):
                return True
        if a.op == 'lam' or b.op == 'lam' or a.op != b.op:
            vs = [fresh(s) for s in sa]
            if _equal(elem(a, vs), elem(b, vs)):
                return True
            return _by_entries(a, b, vs, sa)
        if a.op == b.op == 'arrfn' or a.op == b.op:
            return _args_equal(a.args, b.args)
        return False
    if a.op == 'poly' or b.op == 'poly':
        return _poly_equal(a, b)
    if a.op != b.op:
        if a.op == 'ind' or b.op == 'ind':
            return _poly_equal(a, b)
        return False
    if a.op == 'elem':
        if len(a.args) != len(b.args):
            return False
        if all(_equal(x, y) for x, y in zip(a.args[1:], b.args[1:])) and _equal(a.args[0], b.args[0]):
            return True
        if a.args[0].op == 'orbat' and b.args[0].op == 'orbat' and _orb_unfold_elem(a, b):
            return True
        return False
    if a.op in ('sum', 'red'):
        o = 1 if a.op == 'red' else 0
        if o and a.args[0] != b.args[0]:
            return False
        if not _equal(a.args[o], b.args[o]):
            return False
        v = fresh(a.args[o], tag='s')
        return _equal(subst(a.args[o + 1], {a.args[o + 2]: v}), subst(b.args[o + 1], {b.args[o + 2]: v}))
    if a.op == 'orb':
        return _orb_equal(a, b)
    if a.op in ('var', 'bvar', 'cvar'):
        return False
    return _args_equal(a.args, b.args)


def _args_equal(x, y):
    if isinstance(x, T) and isinstance(y, T):
        return _equal(x, y)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_args_equal(p, q) for p, q in zip(x, y))
    return x == y


def _orb_equal(a, b):
    ha, ca = a.args[:2]
    hb, cb = b.args[:2]
    if len(ca) != len(cb):
        return False
    from .loops import open_orb, fresh_cvar
    k1, cv1 = open_orb(a)
    k2, cv2 = open_orb(b)
    n = len(ca)
    for perm in permutations(range(1, n)):
        p = (0,) + perm
        ok = True
        m1, m2 = {bvar(ha, a.args[2]): k1}, {bvar(hb, b.args[2]): k1}
        for i in range(n):
            c1, c2 = cv1.get(i), cv2.get(p[i])
            if (c1 is None) != (c2 is None):
                ok = False
                break
            if c1 is not None:
                if not _shape_eq(c1, c2):
                    ok = False
                    break
                f = fresh_cvar(c1.shape, c1.kind)
                m1[c1] = f
                m2[c2] = f
        if not ok:
            continue
        if all(_equal(ca[i][0], cb[p[i]][0]) for i in range(n)) and \
                all(_equal(subst(ca[i][1], m1), subst(cb[p[i]][1], m2)) for i in range(n)):
            return True
    return False


def _pos_const(t):
    return sign(sub(t, ONE)) is not None and sign(sub(t, ONE)) >= 0


def _orb_unfold(a, b):
    return False


def _orb_unfold_elem(a, b):
    """x@(t+1) against a recurrence written with a different initial segment: unfold one step on either side."""
    return False


def _poly_equal(a, b):
    d = sub(a, b)
    if cval(d) is not None:
        return cval(d) == 0
    # congruence on atoms
    aa, bb = _atoms(a), _atoms(b)
    oa = [x for x in aa if x not in bb]
    ob = [x for x in bb if x not in aa]
    changed = False
    for x in oa:
        for y in ob:
            if x.op == y.op and x.kind == y.kind and x.op not in ('var', 'bvar') and _equal(x, y):
                a = tm.replace_atom(a, x, y)
                changed = True
                break
    if changed:
        d = sub(a, b)
        if cval(d) is not None:
            return cval(d) == 0
    # case split on a condition
    inds = inds_of(d)
    for c in inds[:3]:
        r1 = _under(c, True, d)
        r0 = _under(c, False, d)
        if not _is_zero(r1[0], r1[1]):
            continue
        if _is_zero(r0[0], r0[1]):
            return True
        if c.args[0] == 'gt' and c.args[1].kind != 'i':
            # p <= 0: strictly below, or on the boundary
            p = c.args[1]
            lo = set_ind(d, c, 0)
            if _is_zero(lo, [neg(p)]) and _zero_on(p, lo):
                return True
    return False


def _atoms(t):
    s = {}
    for m, c in pd(t).items():
        for x, e in m:
            s[x] = 1
            if x.op == 'grp':
                pass
    return s


def _under(c, val, d):
    r = set_ind(d, c, 1 if val else 0)
    rel, p = c.args[0], c.args[1] if len(c.args) == 2 else None
    facts = []
    if rel == 'gt':
        facts = [p] if val else [sub(ONE, p) if p.kind == 'i' else None]
    if rel == 'eq' and val:
        # solve for a variable
        for m, k in pd(p).items():
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0].op in ('var', 'bvar'):
                v = m[0][0]
                e = sub(v, p) if k == 1 else add(v, p)
                if v not in e.fs:
                    r = subst(r, {v: e})
                    break
    return r, [f for f in facts if f is not None]


def _zero_on(p, d):
    """d vanishes where p == 0 (p linear in some atom)."""
    if cval(d) == 0:
        return True
    for m, k in pd(p).items():
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            e = sub(x, mul(p, const(1 / k)))
            if any(x is a for a in _atoms(e)):
                continue
            r = replace_node(d, x, e)
            if cval(r) == 0 or _poly_equal_nz(r):
                return True
    return False


def _is_zero(d, facts):
    if cval(d) == 0:
        return True
    n = len(tm.FACTS)
    tm.FACTS.extend(facts)
    try:
        d = tm.rebuild(d, lambda x, bind=None: (tm.rebuild(x, lambda y, b2=None: subst(y, b2) if b2 else y)
                                                if x.op == 'ind' else (subst(x, bind) if bind else x)))
        if cval(d) == 0:
            return True
        pos, ngt = _signparts(d)
        return _poly_equal_nz(d)
    finally:
        del tm.FACTS[n:]


def _signparts(d):
    return d, None


def _poly_equal_nz(d):
    p = {m: c for m, c in pd(d).items() if c > 0}
    q = {m: -c for m, c in pd(d).items() if c < 0}
    if not p or not q:
        return False
    return _poly_equal(frompd(p), frompd(q))


# ----------------------------------------------------------------------------------------------------------------------
# diagnosis
# ----------------------------------------------------------------------------------------------------------------------
def locate(a, b):
    """Descend to the smallest differing subgraph of a and return (a', b', source location)."""
    loc = tm.ORIGIN.get(a.dig)
    for _ in range(60):
        nxt = None
        if a.op == 'lam' and b.op == 'lam' and len(a.shape) == len(b.shape):
            if all(x is y for x, y in zip(a.shape, b.shape)):
                vs = [fresh(s) for s in a.shape]
                nxt = (elem(a, vs), elem(b, vs))
        elif a.op == 'poly' or b.op == 'poly':
            aa, bb = _atoms(a), _atoms(b)
            oa = [x for x in aa if x not in bb]
            ob = [x for x in bb if x not in aa]
            if len(oa) == 1 and len(ob) == 1 and oa[0].op == ob[0].op:
                nxt = (oa[0], ob[0])
        elif a.op == b.op and a.op in ('sum', 'red'):
            o = 1 if a.op == 'red' else 0
            if a.args[:o + 1] == b.args[:o + 1]:
                v = fresh(a.args[o], tag='s')
                nxt = (subst(a.args[o + 1], {a.args[o + 2]: v}), subst(b.args[o + 1], {b.args[o + 2]: v}))
        elif a.op == b.op and a.op == 'orb':
            ca, cb = a.args[1], b.args[1]
            if len(ca) == len(cb):
                for (i1, u1), (i2, u2) in zip(ca, cb):
                    if i1 is not i2:
                        nxt = (i1, i2)
                        break
                    if u1 is not u2 and a.args[0] == b.args[0]:
                        nxt = (u1, u2)
                        break
        elif a.op == b.op:
            fa, fb = _flat(a.args), _flat(b.args)
            if len(fa) == len(fb):
                df = [(x, y) for x, y in zip(fa, fb) if isinstance(x, T) and isinstance(y, T) and x is not y]
                if len(df) >= 1:
                    nxt = df[0]
        if nxt is None or nxt[0] is nxt[1]:
            break
        a, b = nxt
        l = _loc_of(a)
        if l:
            loc = l
    return a, b, loc or _loc_of(a)


def _loc_of(t):
    l = tm.ORIGIN.get(t.dig)
    if l:
        return l
    return None


def _flat(x):
    out = []
    for y in x:
        if isinstance(y, tuple):
            out += _flat(y)
        else:
            out.append(y)
    return out
