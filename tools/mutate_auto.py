"""Systematic mutation of the library: every small edit of a function body should be reported (or be equivalent).
   python3 tools/mutate_auto.py OUT FILE[:func] 'RULES...' [seed/limit]    -> OUT lists the survivors (exit 0) and the undecided (exit 2)
"""
import ast
import copy
import difflib
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.FloorDiv: [ast.Div],
       ast.MatMult: [], ast.Mod: [ast.FloorDiv]}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn}
FN = {'sin': 'cos', 'cos': 'sin', 'sum': 'mean', 'mean': 'sum', 'maximum': 'minimum', 'minimum': 'maximum', 'min': 'max', 'max': 'min',
      'zeros': 'ones', 'ones': 'zeros', 'cumsum': 'cumprod', 'gelu': 'relu', 'silu': 'relu', 'swish': 'relu', 'floor': 'ceil', 'append': None,
      'stratified': 'systematic', 'killing': 'multinomial', 'normal': 'uniform', 'bootstrap_filter': None, 'exp': 'log'}


def subs(fn):
    """(node, replacement text) pairs inside one function"""
    names = {a.arg for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda)) for a in x.args.args}
    names |= {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    out = []
    skip = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.FunctionDef):
            for a in x.args.args + [x.args.vararg, x.args.kwarg]:
                if a is not None and a.annotation is not None:
                    skip |= set(map(id, ast.walk(a.annotation)))
            if x.returns is not None:
                skip |= set(map(id, ast.walk(x.returns)))
            if x.body and isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant):
                skip |= set(map(id, ast.walk(x.body[0])))
        if isinstance(x, (ast.Raise, ast.Assert, ast.AnnAssign, ast.JoinedStr)):
            skip |= set(map(id, ast.walk(x)))
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'print':
            skip |= set(map(id, ast.walk(x)))

    def put(n, new):
        out.append((n, new if isinstance(new, str) else ast.unparse(new)))

    for x in ast.walk(fn):
        if id(x) in skip:
            continue
        if isinstance(x, ast.BinOp):
            for o in BIN.get(type(x.op), []):
                put(x, ast.BinOp(x.left, o(), x.right))
            if isinstance(x.op, (ast.Sub, ast.Div, ast.MatMult, ast.Pow)):
                put(x, ast.BinOp(x.right, x.op, x.left))
            if isinstance(x.op, (ast.Mult, ast.Add, ast.Div)):
                put(x, x.left)
                if not isinstance(x.op, ast.Div):
                    put(x, x.right)
        elif isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in CMP:
            put(x, ast.Compare(x.left, [CMP[type(x.ops[0])]()], x.comparators))
        elif isinstance(x, ast.Constant) and not isinstance(x.value, (str, bytes)) and x.value is not None and x.value is not Ellipsis:
            v = x.value
            if isinstance(v, bool):
                put(x, str(not v))
            elif isinstance(v, int):
                put(x, str(v + 1))
                put(x, f'({v - 1})' if v > 0 else '2')
            else:
                put(x, str(v * 2 if v else 1.))
        elif isinstance(x, ast.UnaryOp):
            put(x, x.operand)
        elif isinstance(x, ast.Call):
            for i, k in enumerate(x.keywords):
                if k.arg is None or True:
                    y = copy.deepcopy(x)
                    del y.keywords[i]
                    put(x, y)
            for i in range(len(x.args) - 1):
                y = copy.deepcopy(x)
                y.args[i], y.args[i + 1] = y.args[i + 1], y.args[i]
                put(x, y)
            n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
            if FN.get(n):
                y = copy.deepcopy(x)
                if isinstance(y.func, ast.Attribute):
                    y.func.attr = FN[n]
                else:
                    y.func.id = FN[n]
                put(x, y)
            if n in ('clip', 'sort', 'jit', 'squeeze', 'exp', 'sqrt', 'abs', 'normalise') and x.args and n != 'jit':
                put(x, x.args[0])
        elif isinstance(x, ast.Slice):
            pass
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load):
            idx = x.slice.elts if isinstance(x.slice, ast.Tuple) else [x.slice]
            for i, s in enumerate(idx):
                if isinstance(s, ast.Slice):
                    for f in ('lower', 'upper', 'step'):
                        if getattr(s, f) is not None:
                            y = copy.deepcopy(x)
                            z = y.slice.elts[i] if isinstance(y.slice, ast.Tuple) else y.slice
                            setattr(z, f, None)
                            put(x, y)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            for m in names:
                if m != x.id and x.id in names and (difflib.SequenceMatcher(None, m, x.id).ratio() >= 0.55 or
                                                    m.split('_')[0] == x.id.split('_')[0]):
                    put(x, m)
        elif isinstance(x, ast.Attribute) and x.attr == 'T' and isinstance(x.ctx, ast.Load):
            put(x, x.value)
        elif isinstance(x, (ast.Tuple,)) and isinstance(x.ctx, ast.Load) and 2 <= len(x.elts) <= 4:
            for i in range(len(x.elts) - 1):
                y = copy.deepcopy(x)
                y.elts[i], y.elts[i + 1] = y.elts[i + 1], y.elts[i]
                put(x, '(' + ast.unparse(y).strip('()') + ')' if False else ast.unparse(y))
        elif isinstance(x, (ast.AugAssign,)):
            put(x, 'pass')
        elif isinstance(x, ast.IfExp):
            put(x, ast.IfExp(x.test, x.orelse, x.body))
        elif isinstance(x, ast.If):
            put(x.test, ast.UnaryOp(ast.Not(), x.test))
    return out


def offsets(src):
    o, t = [0], 0
    for l in src.encode().splitlines(keepends=True):
        t += len(l)
        o.append(t)
    return o


def mutants(path, func=None):
    src = open(path).read()
    b, o = src.encode(), offsets(src)
    tree = ast.parse(src)
    seen = set()
    res = []
    if func == '*':
        fns = [tree]
    else:
        fns = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and (func is None or n.name == func)]
        inner = {id(y) for n in fns for y in ast.walk(n) if y is not n and isinstance(y, ast.FunctionDef)}
        fns = [n for n in fns if id(n) not in inner]
    for fn in fns:
        for n, new in subs(fn):
            i, j = o[n.lineno - 1] + n.col_offset, o[n.end_lineno - 1] + n.end_col_offset
            old = b[i:j].decode()
            if isinstance(n, (ast.BinOp, ast.Compare, ast.UnaryOp, ast.IfExp)):
                new = '(' + new + ')'
            if isinstance(n, ast.Tuple) and not old.startswith('('):
                new = new.strip()
                if new.startswith('(') and new.endswith(')'):
                    new = new[1:-1]
            out = (b[:i] + new.encode() + b[j:]).decode()
            try:
                t = ast.unparse(ast.parse(out))
            except SyntaxError:
                continue
            if t in seen or t == ast.unparse(tree):
                continue
            seen.add(t)
            res.append((getattr(fn, 'name', ''), n.lineno, old, new, out))
    return res


def main():
    outf, target, rules, *rest = sys.argv[1:]
    file, _, func = target.partition(':')
    ms = mutants(os.path.join('/repo', file), func or None)
    if rest:
        random.Random(1).shuffle(ms)
        ms = ms[:int(rest[0])]
    nw = int(os.environ.get('NW', '6'))
    q = Queue()
    base = f'/tmp/mut/{os.path.basename(outf)}'
    for w in range(nw):
        d = f'{base}_{w}'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '*.gif', 'docs', '*.npy'))
        q.put(d)
    orig = open(os.path.join('/repo', file)).read()

    def one(m):
        d = q.get()
        try:
            open(os.path.join(d, file), 'w').write(m[4])
            st = []
            for r in rules.split():
                try:
                    p = subprocess.run([sys.executable, '-m', 'fbsa.run', r, '--repo', d], cwd=VERIF, capture_output=True, text=True, timeout=200,
                                       env=dict(os.environ, FBSA_BUDGET='100', FBSA_NOREPLAY='1'))
                    st.append(p.returncode)
                    if p.returncode == 1:
                        break
                except subprocess.TimeoutExpired:
                    st.append(9)
            open(os.path.join(d, file), 'w').write(orig)
            return m, st
        finally:
            q.put(d)
    n = {'caught': 0, 'undecided': 0, 'SURVIVED': 0}
    with open(outf, 'w') as f, ThreadPoolExecutor(nw) as ex:
        for m, st in ex.map(one, ms):
            k = 'caught' if 1 in st else 'SURVIVED' if set(st) <= {0} else 'undecided'
            n[k] += 1
            if k != 'caught':
                f.write(f'{k} {file}:{m[1]} {m[0]}: {m[2][:110]!r} -> {m[3][:110]!r} {st}\n')
                f.flush()
        f.write(f'# {file} {func} {n}\n')
    for w in range(nw):
        shutil.rmtree(f'{base}_{w}', ignore_errors=True)


if __name__ == '__main__':
    main()
