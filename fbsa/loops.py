"""Recurrences: canonical summaries of loops (lax.scan, fori_loop, symbolic Python for)."""
from .terms import *
from . import terms as tm
from .arr import replace_node, Arr, build, _contains
from itertools import count

_cv = count()


def fresh_cvar(shape, kind):
    return mk('cvar', (f'$c{next(_cv)}', 0, tuple(shape)), kind, shape=tuple(shape))


def _cvar(h, j, shape, kind):
    return mk('cvar', (h, j, tuple(shape)), kind, shape=tuple(shape))


class Comp:
    __slots__ = ('shape', 'kind', 'ph', 'init', 'upd', 'closed')

    def __init__(self, shape, kind, ph, init, upd):
        self.shape, self.kind, self.ph, self.init, self.upd = tuple(shape), kind, ph, init, upd
        self.closed = None  # function t -> node


def _phs(t, phset):
    return t.fs & phset


def node_elem(N, idx):
    """element of a node that may be scalar (rank 0)."""
    return elem(N, idx) if idx or (N.shape == () and N.op in tm.ATOM_ARR) else N


def node_of(shape, f):
    vs = [fresh(s) for s in shape]
    return lam(shape, vs, f(*vs))


class Orbit:
    """Solve comps symbolically; .at(j, t) is the value of component j before iteration t."""

    def __init__(self, comps, k):
        self.comps, self.k = comps, k
        self._simplify()

    def _subst_all(self, c, closed_at_k):
        """Eliminate component c whose value at iteration k is the node closed_at_k."""
        for o in self.comps:
            if o is not c and o.closed is None:
                o.upd = subst_cv(o.upd, c.ph, closed_at_k)

    def _simplify(self):
        k = self.k
        changed = True
        while changed:
            changed = False
            live = [c for c in self.comps if c.closed is None]
            phset = frozenset(c.ph for c in live)
            for c in live:
                # invariant
                if is_ph(c.upd, c.ph):
                    init = c.init
                    c.closed = lambda t, init=init: init
                    self._subst_all(c, init)
                    changed = True
                    break
                fs = c.upd.fs & phset
                if not fs:
                    # delayed function of k
                    h, init = c.upd, c.init
                    hm1 = subst(h, {k: neg(ONE)})
                    if hm1 is init:
                        cl = lambda t, h=h: subst(h, {k: sub(t, ONE)})
                    else:
                        def cl(t, h=h, init=init):
                            hv = subst(h, {k: sub(t, ONE)})
                            cnd = eq(t, ZERO)
                            if hv.shape:
                                return arrite(cnd, init, hv)
                            return ite(cnd, init, hv)
                    c.closed = cl
                    self._subst_all(c, cl(k))
                    changed = True
                    break
                if c.kind == 'k' and not c.shape and fs == {c.ph} and len(live) > 1:
                    # a PRNG key threaded through the loop: its own recurrence, referenced by iteration number
                    alone = Orbit.__new__(Orbit)
                    alone.comps, alone.k = [Comp(c.shape, c.kind, c.ph, c.init, c.upd)], k
                    alone.live = alone.comps
                    c.closed = lambda t, o=alone: o.at(0, t)
                    self._subst_all(c, c.closed(k))
                    changed = True
                    break
                r = self._accum(c, live, phset)
                if r is not None:
                    c.closed = r
                    self._subst_all(c, r(k))
                    changed = True
                    break
                r = self._derived(c, live, phset)
                if r is not None:
                    at, cur = r
                    c.closed = at
                    self._subst_all(c, cur)
                    changed = True
                    break
        self.live = [c for c in self.comps if c.closed is None]

    def _closure(self, c, live):
        phm = {x.ph: x for x in live}
        seen, todo = [], [c]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.append(x)
            for p in sorted(x.upd.fs, key=lambda p: p.dig):
                if p in phm:
                    todo.append(phm[p])
        return seen

    def _depends(self, t, c, live):
        """Does node t (transitively through other components) depend on component c?"""
        phm = {x.ph: x for x in live}
        for p in t.fs:
            if p is c.ph:
                return True
            if p in phm and c in self._closure(phm[p], live):
                return True
        return False

    def _accum(self, c, live, phset):
        """c' = c + g  (g independent of c);  also  c' = c with element k overwritten."""
        if c.kind == 'k':
            return None
        vs = [fresh(s) for s in c.shape]
        old = elem(c.ph, tuple(vs))
        body = node_elem(c.upd, tuple(vs))
        g = sub(body, old)
        k = self.k
        if c.ph not in g.fs:
            if self._depends(g, c, live):
                return None
            init = c.init

            def at(t):
                q = fresh(t, tag='a')
                gq = self.at_expr(g, q)
                acc = sum_(t, q, gq)
                return lam(c.shape, vs, add(node_elem(init, tuple(vs)), acc))

            return at
        # buffer write
        if len(c.shape) >= 1 and body.op == 'poly':
            for a in inds_of(body):
                if a.args[0] != 'eq' or k not in a.fs:
                    continue
                on, off = set_ind(body, a, 1), set_ind(body, a, 0)
                if off is old and c.ph not in on.fs and not self._depends(on, c, live):
                    p = a.args[1]
                    d = pd(p)
                    ck = d.get(((k, tm.Fr(1)),))
                    if ck in (1, -1):
                        # p == 0  <=> k = e(vs)
                        e = sub(k, p) if ck == 1 else add(k, p)
                        if k in e.fs:
                            continue
                        init = c.init

                        def at(t, e=e, on=on, init=init):
                            val = self.at_expr(on, e)
                            cond = mul(le(ZERO, e), lt(e, t))
                            return lam(c.shape, vs, ite(cond, val, node_elem(init, tuple(vs))))

                        return at
        return None

    def _derived(self, c, live, phset):
        """c_{k+1} = G(other_{k+1}, k) with init_c = G(init_other, -1)."""
        if c.kind == 'k':
            return None
        for o in live:
            if o is c or o.kind == 'k' or is_ph(o.upd, o.ph):
                continue
            if c.ph in o.upd.fs and False:
                continue
            if o.upd.op in ('var', 'bvar', 'cvar'):
                continue
            x = fresh_cvar(o.shape, o.kind)
            xn = x if o.shape else elem(x, ())
            g = replace_node(c.upd, o.upd, xn)
            if x not in g.fs or (g.fs & phset):
                continue
            k = self.k
            init_g = subst_cv(subst(g, {k: neg(ONE)}), x, o.init)
            if init_g is c.init:
                gm1 = subst(g, {k: sub(k, ONE)})

                def at(t, gm1=gm1, o=o, x=x):
                    return subst_cv(subst(gm1, {k: t}), x, self.at(o, t))

                return at, subst_cv(gm1, x, o.ph if o.shape else elem(o.ph, ()))
        return None

    # ------------------------------------------------------------------------------------------------------------------
    def at(self, c, t):
        """Value (node) of component c after t iterations."""
        if isinstance(c, int):
            c = self.comps[c]
        if c.closed is not None:
            return c.closed(t)
        if t is ZERO:
            return c.init
        live = [x for x in self.comps if x.closed is None]
        cl = self._closure(c, live)
        phall = {x.ph: mk('tok', ('c',) + tuple(x.shape), x.kind, shape=x.shape) for x in cl}

        def er(n):
            for p, tok in phall.items():
                n = subst_cv(n, p, tok)
            return n

        rest = [x for x in cl if x is not c]
        rest.sort(key=lambda x: (erase_keys(x.init).dig, erase_keys(er(x.upd)).dig, x.init.dig, er(x.upd).dig))
        order = [c] + rest
        h = max(max(x.upd.h for x in order), max(x.init.h for x in order)) + 1
        n = tm.PROPS.get(self.k, {}).get('size')
        n = n if isinstance(n, T) else 'inf'
        kb = bvar(h, n)
        tm.PROPS.setdefault(kb, {'size': None if n == 'inf' else n, 'nonneg': True})
        m = {self.k: kb}
        cvs = []
        for i, x in enumerate(order):
            cv = _cvar(h, i, x.shape, x.kind)
            cvs.append(cv)
            m[x.ph] = cv
        comps = tuple((x.init, subst(x.upd, m)) for x in order)
        bound = frozenset(cvs + [kb])
        orb = mk('orb', (h, comps, n), c.kind, bound=bound, extra_h=h)
        A = mk('orbat', (orb, 0, t), c.kind, shape=c.shape)
        return A if c.shape else elem(A, ())

    def at_expr(self, t, kval):
        """Expression t (over k and the component placeholders) evaluated at iteration kval."""
        m = {self.k: kval}
        cl = {}
        for c in self.comps:
            if c.ph in t.fs:
                cl[c] = self.at(c, kval)
        for c in cl:
            pass
        # simultaneous: placeholders -> temp tokens first
        tmp = {}
        for c in cl:
            f = fresh_cvar(c.shape, c.kind)
            t = subst_cv(t, c.ph, f if c.shape else elem(f, ()))
            tmp[f] = cl[c]
        t = subst(t, m)
        for f, v in tmp.items():
            t = subst_cv(t, f, v)
        return t


def is_ph(node, ph):
    return node is ph or (node.op == 'elem' and len(node.args) == 1 and node.args[0] is ph)


def subst_cv(t, ph, val):
    """Substitute a carry placeholder (array symbol or rank-0 symbol) by a node."""
    if ph not in t.fs:
        return t
    if ph.shape:
        return subst(t, {ph: val})
    # rank-0 placeholder appears as elem(ph)
    if val.op in ('cvar',) and val.shape == ():
        return subst(t, {ph: val})
    return _sub0(t, ph, val, {})


def _sub0(t, ph, val, c):
    if ph not in t.fs:
        return t
    if t.op == 'elem' and t.args[0] is ph:
        return val
    r = c.get(t)
    if r is None:
        r = tm.rebuild(t, lambda x, bind=None: _sub0(subst(x, bind) if bind else x, ph, val, c if not bind else {}))
        c[t] = r
    return r


def erase_keys(t):
    """Replace maximal key-typed subterms by one token."""
    if t.kind == 'k' and not t.shape:
        return mk('ktok', ('*',), 'k', shape=())
    return _ek(t)


_ek_c = {}


def _has_key(t):
    r = _hk_c.get(t)
    if r is None:
        r = False
        st = list(t.args)
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, T):
                if x.kind == 'k' or _has_key(x):
                    r = True
                    break
        _hk_c[t] = r
    return r


_hk_c = {}


tm.ERASE[0] = lambda t: t if not _has_key(t) else erase_keys(t)


def _ek(t):
    r = _ek_c.get(t)
    if r is None:
        if not _has_key(t):
            r = t
        else:
            r = tm.rebuild(t, lambda x, bind=None: erase_keys(subst(x, bind) if bind else x))
        _ek_c[t] = r
    return r


def open_orb(orb):
    h, comps, n = orb.args
    k = fresh(None if n == 'inf' else n, tag='k')
    tm.PROPS[k] = {'size': None if n == 'inf' else n, 'nonneg': True}
    # recover cvars
    cvs = {}

    def find(x):
        if isinstance(x, tuple):
            for y in x:
                find(y)
        elif isinstance(x, T):
            for s in sorted(x.fs, key=lambda p: p.dig):
                if s.op == 'cvar' and s.args[0] == h:
                    cvs[s.args[1]] = s

    find(comps)
    return k, cvs


def _rebuild_orbat(t, f):
    orb, j, tt = t.args
    h, comps, n = orb.args
    k, cvs = open_orb(orb)
    if n != 'inf':
        tm.PROPS[k] = {'size': f(n), 'nonneg': True}
    kb = bvar(h, n)
    cs = []
    bind = {kb: k}
    phs = []
    for i, (init, upd) in enumerate(comps):
        shp = init.shape if init.shape else ()
        nshape = tuple(tm.mapargs(s, f) for s in shp)
        kd = upd.kind if upd.kind == 'k' or init.kind == 'k' else init.kind
        cv = cvs.get(i)
        kind = cv.kind if cv is not None else kd
        ph = fresh_cvar(nshape, kind)
        phs.append(ph)
        if cv is not None:
            bind[cv] = ph
    for i, (init, upd) in enumerate(comps):
        cs.append(Comp(phs[i].shape, phs[i].kind, phs[i], f(init), f(upd, bind)))
    o = Orbit(cs, k)
    r = o.at(cs[j], f(tt))
    if not t.shape:
        # scalar orbat nodes are wrapped by elem(...): return an array-like rank-0 node
        if r.op == 'elem' and len(r.args) == 1:
            return r.args[0]
        return mk('wrap0', (r,), r.kind, shape=())
    return r


tm.ORB_HOOK[0] = _rebuild_orbat
_old_elem = tm.elem


def _elem(A, idx):
    if A.op == 'wrap0':
        return A.args[0]
    return _old_elem(A, idx)


import fbsa.arr as _arr

for _m in (tm, _arr):
    _m.elem = _elem
elem = _elem


def unfold(orb, j, t):
    """Value at t written through one step from t-1."""
    h, comps, n = orb.args
    k, cvs = open_orb(orb)
    kb = bvar(h, n)
    bind = {kb: k}
    phs, cs = [], []
    for i, (init, upd) in enumerate(comps):
        shp = init.shape if init.shape else ()
        cv = cvs.get(i)
        kind = cv.kind if cv is not None else init.kind
        ph = fresh_cvar(shp, kind)
        phs.append(ph)
        if cv is not None:
            bind[cv] = ph
    for i, (init, upd) in enumerate(comps):
        cs.append(Comp(phs[i].shape, phs[i].kind, phs[i], init, subst(upd, bind)))
    o = Orbit(cs, k)
    c = cs[j]
    if c.closed is not None:
        return c.closed(t)
    return o.at_expr(c.upd, sub(t, ONE))
