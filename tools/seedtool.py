"""Build and validate planted bugs: python3 tools/seedtool.py [ID ...]   (sources: tools/seeds_src/<ID>.py)

A source defines PROPERTY, NEEDS, WHAT, EDITS = [(file, old, new), ...] and DEMO (python text run with cwd /repo).
Validation runs in a private mount namespace with a scratch copy bound over /repo.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(HERE, 'tools', 'seeds_src')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/bash
# run with cwd /repo; exit 0: the property holds, 1: broken
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=
unset PYTHONPATH
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def inside(copy, cmd, timeout=600):
    import shlex
    return sh(f'unshare -Urm bash -c {shlex.quote(f"mount --bind {copy} /repo && cd /repo && {cmd}")}', timeout=timeout)


def load(i):
    g = {}
    exec(open(os.path.join(SRC, i + '.py')).read(), g)
    return g


def build(i, tests=True):
    g = load(i)
    copy = f'/tmp/seedcopy_{i}'
    shutil.rmtree(copy, ignore_errors=True)
    sh(f'cp -a /repo {copy}')
    sh(f'git -C {copy} checkout -- .')
    out = os.path.join(os.environ.get('SEED_OUT', os.path.join(HERE, 'seeded')), i)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'demo.py'), 'w').write(g['DEMO'].lstrip('\n'))
    open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['WHAT']},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    msgs = []
    r = inside(copy, f'bash {out}/demo.sh')
    if r.returncode != 0:
        msgs.append(f'demo fails on the unchanged tree: {r.stdout[-300:]}{r.stderr[-600:]}')
    for f, old, new in g['EDITS']:
        p = os.path.join(copy, f)
        s = open(p).read()
        if s.count(old) != 1:
            return i, [f'{f}: {s.count(old)} matches of {old[:60]!r}']
        open(p, 'w').write(s.replace(old, new))
    d = sh(f'git -C {copy} diff').stdout
    open(os.path.join(out, 'patch.diff'), 'w').write(d)
    if sh(f'git -C /repo apply --check {out}/patch.diff').returncode:
        msgs.append('patch does not apply')
    r = inside(copy, f'bash {out}/demo.sh')
    if r.returncode == 0:
        msgs.append('demo passes with the patch')
    else:
        msgs.append('(demo with the patch: ' + (r.stdout + r.stderr).strip().splitlines()[-1][:160] + ')')
    r = inside(copy, 'bash /opt/vp/build.sh')
    if r.returncode:
        msgs.append('build fails: ' + r.stderr[-300:])
    if tests:
        res = f'/tmp/seedres_{i}.json'
        r = inside(copy, f'bash /opt/vp/test.sh {res}', timeout=900)
        try:
            t = json.load(open(res))
            passed = set(t.get('passed', [])) if isinstance(t.get('passed'), list) else \
                {k for k, v in t.items() if v == 'passed'}
            bad = STABLE - passed
            if bad:
                msgs.append('tests fail: ' + ', '.join(sorted(bad)))
        except Exception as e:
            msgs.append(f'no test result: {e} {r.stdout[-200:]}')
    chk = sh(f'python3 -m fbsa.run {g["PROPERTY"]} --repo {copy}', cwd=HERE)
    caught = chk.returncode == 1 and f'VIOLATION property={g["PROPERTY"]}' in chk.stdout
    msgs.append('CAUGHT' if caught else f'MISSED (exit {chk.returncode}) {(chk.stdout + chk.stderr).strip()[:300]}')
    shutil.rmtree(copy, ignore_errors=True)
    return i, msgs


if __name__ == '__main__':
    a = sys.argv[1:]
    tests = '--no-tests' not in a
    ids = [x for x in a if not x.startswith('--')] or sorted(f[:-3] for f in os.listdir(SRC) if f.endswith('.py'))
    with ThreadPoolExecutor(1) as ex:
        for i, m in ex.map(lambda i: build(i, tests), ids):
            print(i, '|', ' ; '.join(m), flush=True)
