"""Rule contexts: obligations, comparison with a reference law, verdicts."""
import os
import re
import signal
import time
import traceback
from . import terms as tm
from .terms import *
from .arr import *
from . import arr as ar
from . import interp as ip
from .interp import Interp, Opaque, Native, Partial, Anchor, PathEnd, Instance, NT
from . import compare as cmp
from . import summ as sm

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODE = [int(os.environ['FBSA_RANK']) if os.environ.get('FBSA_RANK') else 'any']  # rank of the abstract state blocks: 'any', or a number when an argument for every rank is out of reach
RULES = {}  # id -> (title, function, technique, note)


def rule(pid, technique, note, assumptions=(), minimum=1, ranks=None):
    """ranks: decide at these state ranks only (default: every rank at once, and 1 and 3 where that is out of reach)."""
    def deco(f):
        RULES[pid] = {'fn': f, 'technique': technique, 'note': note, 'assumptions': list(assumptions),
                      'minimum': minimum, 'ranks': ranks}
        return f
    return deco


class Ob:
    def __init__(self, name, rule, construct):
        self.name, self.rule, self.construct = name, rule, construct
        self.status, self.msg, self.loc, self.detail = 'open', '', None, ''
        self.n = 0
        self.wall = 0.


class Cx:
    def __init__(self, pid, tier='quick', seed=1, repo=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.repo = repo or ip.REPO
        self.it = Interp(self.repo)
        self.obs = []
        self._specs = {}
        self.extra = {}
        self.names = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -- programs ------------------------------------------------------------------------------------------------------
    def fresh(self):
        """A new interpreter instance (drop module state)."""
        st = self.it.stats
        self.it = Interp(self.repo)
        self.it.stats = st
        self._specs = {}
        return self.it

    def get(self, dotted):
        return self.it.get(dotted)

    def spec(self, name):
        """'file:function' -> abstract function of the reference-law module."""
        f, fn = name.split(':')
        if f not in self._specs:
            self._specs[f] = self.it.load_source(os.path.join(VERIF, 'spec', f + '.py'), 'spec_' + f)
        return self._specs[f].env.vars[fn]

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.spec(f) if ':' in f else self.get(f)
        a, k = [], {}
        k.update(kw.pop('_kw', {}))
        k.update(kw)
        return self.it.call(f, list(args), k)

    def where(self, f):
        if isinstance(f, str):
            try:
                f = self.get(f)
            except Exception:
                return f
        n = getattr(f, 'node', None)
        m = getattr(f, 'module', None)
        if n is not None and m is not None:
            return f'{os.path.relpath(m.path, self.repo)}:{n.lineno} {f.qual}'
        return str(f)

    def leaves(self, v):
        ls, _ = self.it.flatten(v)
        out = []
        for x in ls:
            if x is None:
                continue
            if isinstance(x, (str, bool)) and not isinstance(x, int):
                out.append(x)
                continue
            x = lift(x) if not isinstance(x, Arr) else x
            out.append(x)
        return out

    # -- obligations ---------------------------------------------------------------------------------------------------
    def ob(self, name, rule, construct, fn):
        """Run fn(); it raises Mismatch/Definite for a violation, Unmodelled for no verdict."""
        o = Ob(name, rule, construct)
        if self.names is not None and name not in self.names or getattr(self, 'only', None) and self.only not in name:
            return o
        self.obs.append(o)
        o.mode = MODE[0]
        t0 = time.time()
        tm.CUR_LOC[0] = None if isinstance(tm.CUR_LOC, list) else None
        self.it.depth = 0
        try:
            r = fn()
            o.status = 'ok'
            o.n = r if isinstance(r, int) and not isinstance(r, bool) else 1
        except cmp.Mismatch as e:
            o.status, o.msg, o.loc, o.detail = 'violated', str(e), e.loc, e.detail or ''
        except Definite as e:
            o.status, o.msg, o.loc = 'violated', 'ill-formed: ' + str(e), e.loc or self.it.loc
            if MODE[0] == 'any' and 'rank' in str(e):
                o.status, o.rank = 'unknown', True
        except PathEnd as e:
            o.status, o.msg, o.loc = 'violated', f'the call raises ({e})', getattr(e, 'loc', None)
        except Unmodelled as e:
            o.status, o.msg, o.loc = 'unknown', str(e), getattr(self.it, 'loc', None)
        except Anchor as e:
            o.status, o.msg = 'unknown', str(e)
        except RecursionError as e:
            o.status, o.msg = 'unknown', 'recursion limit of the analyser'
        except Timeout as e:
            if os.environ.get('FBSA_DEBUG'):
                traceback.print_exc()
            o.status, o.msg = 'unknown', 'analysis budget exhausted'
        except Exception as e:  # noqa
            if os.environ.get('FBSA_DEBUG'):
                traceback.print_exc()
            o.status, o.msg = 'unknown', f'analyser error {type(e).__name__}: {e} [{tb_tail(e)}]'
            o.loc = getattr(self.it, 'loc', None)
        o.wall = time.time() - t0
        return o

    def law(self, name, impl, args, spec, sargs=None, kw=None, skw=None, labels=None, rule='equals the reference law',
            pick=None, spick=None, keys=True, env=None, summ=(), cons=None):
        """impl(*args, **kw) is the same value graph as spec(*sargs, **skw), up to independent keys."""
        cons = self.where(cons or impl)

        def once():
            a = self.call(impl, *args, _kw=dict(kw or {})) if not callable_py(impl) else impl()
            if pick:
                a = pick(a)
            la = sorted(getattr(self.it, 'summary_log', []))
            self.it.summary_log = []
            b = self.call(spec, *(args if sargs is None else sargs),
                          _kw=dict((kw if skw is None else skw) or {})) if not callable_py(spec) else spec()
            if spick or pick:
                b = (spick or pick)(b)
            lb = sorted(self.it.summary_log)
            try:
                return self.same(a, b, labels, keys)
            except cmp.Mismatch as e:
                e.logs = (la, lb)
                raise

        def go():
            self.it.summary_log = []
            if not summ:
                return once()
            done = sm.install(self.it, summ)
            try:
                return once()
            except cmp.Mismatch as e:
                la, lb = e.logs if hasattr(e, 'logs') else (0, 0)
                if la == lb:
                    raise
                first = e
            finally:
                for q in done:
                    self.it.overrides.pop(q, None)
            # the summarised functions are not used alike: compare with their bodies expanded
            self.it.summary_log = []
            try:
                with limit(240):
                    return once()
            except Timeout:
                raise first

        return self.ob(name, rule, cons, go)

    def same(self, a, b, labels=None, keys=True):
        A, B = self.leaves(a), self.leaves(b)
        if len(A) != len(B):
            raise cmp.Mismatch(f'result structure differs: {len(A)} leaves, the law has {len(B)}', None)
        labels = labels or [f'result[{i}]' for i in range(len(A))]
        na, nb = [], []
        for k, (x, y) in enumerate(zip(A, B)):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    raise cmp.Mismatch(f'{labels[k]} is {x!r}, the law has {y!r}', None)
                continue
            shape_same(x, y, labels[k])
            na.append(tm.unslice(x.node() if x.ndim else x.body))
            nb.append(tm.unslice(y.node() if y.ndim else y.body))
        lab = [l for l, x in zip(labels, A) if not isinstance(x, str)]
        cmp.match(na, nb, lab, keys)
        return max(1, len(A))


class Timeout(Exception):
    pass


class limit:
    """Bound the time of a block; the outer alarm is restored."""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.t0 = time.time()
        self.left = signal.alarm(0)
        self.old = signal.signal(signal.SIGALRM, self.fire)
        signal.alarm(max(1, min(self.s, self.left or self.s)))

    def fire(self, *_):
        raise Timeout()

    def __exit__(self, *exc):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        if self.left:
            signal.alarm(max(1, int(self.left - (time.time() - self.t0))))
        return False


def tb_tail(e):
    fs = traceback.extract_tb(e.__traceback__)[-2:]
    return '; '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in fs)


def callable_py(f):
    import types
    return isinstance(f, (types.FunctionType, types.LambdaType))


def shape_same(x, y, label):
    sx, sy = list(x.shape), list(y.shape)
    if len(sx) != len(sy) or any(p is not q and not is_zero(sub(p, q)) for p, q in zip(sx, sy)):
        raise cmp.Mismatch(f'{label} has shape {pps(sx)}, the law has {pps(sy)}', None)


def pps(s):
    return '(' + ', '.join(pp(d, 4) for d in s) + ')'


def is_zero(t):
    return t is ZERO or (isinstance(t, T) and ival(t) == 0)


# -- symbolic arguments ------------------------------------------------------------------------------------------------
def key(name='key'):
    return scalar(var(name, kind='k'))


def rest_dim(name):
    """A block of state axes: of any rank, or of the concrete rank under analysis (a tuple of sizes)."""
    if MODE[0] == 'any':
        return ar.rest_dim(name)
    return tuple(dim(f'{name}{i}') for i in range(MODE[0]))


def flat(shape):
    out = []
    for s in shape:
        out.extend(s if isinstance(s, tuple) else (s,))
    return tuple(out)


def star(d):
    """The block as a user-visible shape tuple."""
    return tuple(scalar(x) for x in d) if isinstance(d, tuple) else (StarDims(d),)


def fvar(name, *shape, kind='f'):
    shape = flat(shape)
    if not shape:
        return scalar(var(name, kind=kind))
    return of_node(var(name, shape=shape, kind=kind))


def opq(name, *shape, kind='f'):
    shape = flat(shape)
    return Opaque(name, lambda i, a, k: (kind, shape))


def opqf(name, f):
    def one(r):
        return (r[0], flat(r[1])) if isinstance(r[0], str) else tuple(one(x) for x in r)
    return Opaque(name, lambda i, a, k: one(f(i, a, k)))


def kws(name='kw'):
    return {'**': of_node(var(name, shape=(dim('nkw'),)))}


class Rec:
    """A user-supplied object: named members."""

    def __init__(self, name, members):
        self.name, self.members = name, members

    def _attr(self, it, a):
        if a in self.members:
            return self.members[a]
        raise Definite(f'{self.name} has no member {a!r} in its interface')

    def _to_nodes(self, it):
        return ('obj', self.name)


def FACTS_pos(name):
    v = var(name, kind='f')
    tm.PROPS.setdefault(v, {})['pos'] = True
    return v
