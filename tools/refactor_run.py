"""Behaviour-preserving rewrites (tools/refactors/*.py: EDITS = [(name, ids, file, old, new), ...]); every check stays quiet.
   python3 tools/refactor_run.py [-t] [-m] [name-substring ...]   -m: behaviour-changing edits instead; every one is reported
       -t also runs the repository's tests on all of them"""
import importlib.util
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load():
    out = []
    d = os.path.join(HERE, 'mutants' if '-m' in sys.argv else 'refactors')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            sp = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(sp)
            sp.loader.exec_module(m)
            for name, ids, file, *pairs in m.EDITS:
                out.append((f[:-3] + '.' + name, ids, file, pairs))
    return out


def one(r):
    name, ids, file, pairs = r
    d = f"/tmp/rfx/{name}{sys.argv.count(chr(45) + chr(109))}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '*.gif', 'docs'))
    p = os.path.join(d, file)
    s = open(p).read()
    for old, new in zip(pairs[::2], pairs[1::2]):
        if s.count(old) != 1:
            return name, [f'pattern occurs {s.count(old)} times: {old[:60]!r}']
        s = s.replace(old, new)
    open(p, 'w').write(s)
    if '-t' in sys.argv:
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {d} /repo && bash /opt/vp/test.sh {d}/t.json && python3 -c '
                            f'"import json;a=json.load(open(\'{d}/t.json\'));print(len(a[\'passed\']),a[\'failed\'])"'],
                           capture_output=True, text=True)
        return name, [r.stdout.strip().split('\n')[-1]]
    bad = []
    for pid in ids.split():
        r = subprocess.run([sys.executable, '-m', 'fbsa.run', pid, '--repo', d], cwd=VERIF, capture_output=True, text=True,
                           env=dict(os.environ, FBSA_BUDGET='600'))
        if r.returncode:
            bad.append(f'{pid} exit {r.returncode}\n' + '\n'.join(x[:260] for x in r.stdout.split('\n')[:7]))
    if not bad:
        shutil.rmtree(d, ignore_errors=True)
    return name, bad


def main():
    want = [a for a in sys.argv[1:] if a not in ('-t', '-m')]
    rs = [r for r in load() if not want or any(w in r[0] for w in want)]
    n = 0
    with ThreadPoolExecutor(2 if '-t' in sys.argv else 5) as ex:
        for name, bad in ex.map(one, rs):
            n += bool(bad)
            print(('ALARM ' if bad else 'quiet ') + name, *bad, sep='\n    ' if bad else '', flush=True)
    print(f'{len(rs)} rewrites, {n} alarms')


main()
