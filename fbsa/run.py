"""python3 -m fbsa.run <property> [--tier quick|thorough] : one check."""
import argparse
import importlib
import json
import os
import pkgutil
import signal
import sys
import time

from . import rule as R
from . import rules as rules_pkg

VERIF = R.VERIF
sys.setrecursionlimit(20000)


def load_rules():
    for m in pkgutil.iter_modules(rules_pkg.__path__):
        importlib.import_module('fbsa.rules.' + m.name)


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                f = dict(x.split('=', 1) for x in ln[len('finding:'):].split(' | ')[0].split() if '=' in x)
                parts = [x.strip() for x in ln.split(' | ')]
                out.append({'property': f.get('property'), 'obligation': parts[1] if len(parts) > 1 else '',
                            'what': parts[2] if len(parts) > 2 else ''})
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--only', default=os.environ.get('FBSA_ONLY'))
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    load_rules()
    r = R.RULES[a.pid]
    t0 = time.time()
    cx = R.Cx(a.pid, a.tier, seed, a.repo)
    cx.only = a.only

    def on_alarm(*_):
        raise R.Timeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(os.environ.get("FBSA_BUDGET", "780")))
    def attempt(cx):
        try:
            r['fn'](cx)
        except R.Timeout:
            return 'analysis budget exhausted'
        except R.Anchor as e:
            return f'anchor vanished: {e}'
        except (R.Unmodelled, R.Definite, R.PathEnd) as e:
            return f'{type(e).__name__}: {e} at {cx.it.loc}'

    ranks = r['ranks'] or (1, 3)
    if r['ranks'] and a.tier == 'thorough':
        ranks = tuple(sorted(set(ranks) | {3}))
    if r['ranks']:
        R.MODE[0] = ranks[0]
    crash = attempt(cx)
    if r['ranks']:
        for o in cx.obs:
            o.rule += f' (state rank {ranks[0]})'
        left = {o.name for o in cx.obs if o.status == 'ok'}
        ranks = ranks[1:]
    else:
        left = {o.name for o in cx.obs if o.status == 'unknown' and 'budget' not in o.msg}
    if left and not crash:
        # no argument for states of every rank: decide at the ranks given
        keep = {o.name: o for o in cx.obs}
        for rank in ranks:
            R.MODE[0] = rank
            c2 = R.Cx(a.pid, a.tier, seed, a.repo)
            c2.names, c2.it.stats = left, cx.it.stats
            crash = crash or attempt(c2)
            for o in c2.obs:
                o.rule += f' (state rank {rank})'
                old = keep[o.name]
                if old.status == 'unknown' and old.mode == 'any' or old.status == 'ok' or o.status == 'violated':
                    if not (old.status == 'ok' and o.status == 'ok'):
                        keep[o.name] = o
        R.MODE[0] = 'any'
        cx.obs = [keep[o.name] for o in cx.obs]
    signal.alarm(0)
    wall = time.time() - t0
    kf = [k for k in known_findings() if k['property'] == a.pid]
    viol, known, unknown, ok = [], [], [], []
    for o in cx.obs:
        if o.status == 'ok':
            ok.append(o)
        elif o.status == 'violated':
            hit = [k for k in kf if k['obligation'] == o.name]
            (known if hit else viol).append(o)
        else:
            unknown.append(o)
    st = cx.it.stats
    samples = [{'obligation': o.name, 'rule': o.rule, 'construct': o.construct, 'verdict': o.status,
                'at': o.loc, 'wall_s': round(o.wall, 3)} for o in cx.obs][:60]
    cov = {
        'explanation': r['technique'] + ': every obligation compares the value-flow graph the analyser builds from '
                       '/repo\'s current source (all branches joined, loops summarised as recurrences, sizes symbolic) '
                       'with the reference law, or applies the named structural rule to every construct listed; '
                       + r['note'],
        'obligations': len(cx.obs), 'discharged': len(ok), 'known_findings': len(known),
        'result_components_compared': sum(o.n for o in ok),
        'functions_analysed': sorted(f for f in st['functions'] if f and not str(f).startswith('spec_')),
        'files_analysed': sorted(st['files']),
        'abstract_calls': st['calls'],
        'samples': samples,
    }
    cov.update(cx.extra)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': a.pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': 'other', 'coverage': cov, 'assumptions': r['assumptions'], 'wall_s': round(wall, 3),
          'violations': len(viol)}
    with open(os.path.join(VERIF, 'evidence', a.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{a.pid}: {len(cx.obs)} obligations, {len(ok)} discharged, {len(viol)} violated, {len(known)} known, '
          f'{len(unknown)} without verdict; {len(cov["functions_analysed"])} functions in '
          f'{len(cov["files_analysed"])} files; {wall:.2f}s')
    if a.v:
        for o in cx.obs:
            print(f'  [{o.status}] {o.name}  ({o.construct}) {o.wall:.2f}s')
    for o in known:
        k = [k for k in kf if k['obligation'] == o.name][0]
        print(f'KNOWN-FINDING: property={a.pid} {o.name}: {k["what"]}')
    for o in unknown:
        print(f'  NO VERDICT {o.name}: {o.msg} (at {o.loc}) [{o.construct}]')
    if viol:
        rp = os.path.join(VERIF, 'replay', a.pid + '.txt')
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, 'w') as f:
            f.write(f'property {a.pid}\nreplay with: cd /verif && python3 -m fbsa.run {a.pid} -v\n')
            for o in viol:
                f.write(f'\n{o.name}\n rule: {o.rule}\n construct: {o.construct}\n at: {o.loc}\n {o.msg}\n  {o.detail}\n')
        for o in viol:
            print(f'  VIOLATED {o.name}: {o.msg}\n    construct: {o.construct}\n    at: {o.loc}')
            if a.v and o.detail:
                print('    ' + str(o.detail)[:3000].replace('\n', '\n    '))
        print(f'VIOLATION property={a.pid} replay={rp}')
        return 1
    if crash or unknown:
        print(f'ANALYSIS INCOMPLETE: {crash or "obligations without verdict"}')
        return 2
    if len(cx.obs) < r['minimum'] and not a.only:
        print(f'ANALYSIS BROKEN: {len(cx.obs)} obligations, expected at least {r["minimum"]}')
        return 2
    return 0


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
