"""The property list: writes properties.jsonl and MANIFEST.json.  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL_SIZES = 'all numbers of time steps, particles and state shapes, all time grids and observations, all user-supplied ' \
            'transition/likelihood functions and keyword arguments'
P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, observe=list(observe)))


VFG = ('Static value-flow equivalence: the analyser abstractly interprets the current source into a normal-form value '
       'graph with symbolic sizes and uninterpreted user callables and compares it with a reference law; holds for every '
       'input of the quantifier. ')
TRUST = ('Trusts the transfer functions for jax primitives, exact real arithmetic, and that different outputs of a key '
         'split are independent. ')

exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P + [dict(n, note=None) for n in NA]:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    import sys
    sys.path.insert(0, HERE)
    from fbsa import run
    run.load_rules()
    checks = []
    for p in P:
        r = run.R.RULES[p['id']]
        checks.append({'property': p['id'], 'quick_cmd': f'python3 -m fbsa.run {p["id"]} --tier quick',
                       'thorough_cmd': f'python3 -m fbsa.run {p["id"]} --tier thorough',
                       'technique': r['technique'], 'level': 'other', 'level_note': VFG + p['note'] + ' ' + TRUST})
    man = {'version': 1, 'setup_cmd': 'python3 -c "import fbsa.run as r; r.load_rules()"', 'checks': checks,
           'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NA],
           'notes': 'Stdlib-only static analyser (fbsa/) with reference laws (spec/); no hooks in /repo are needed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
    left = sorted(set(run.R.RULES) - {p['id'] for p in P})
    if left:
        print('rules without a property:', left)
    print(len(P), 'claimed', len(NA), 'not applicable')


if __name__ == '__main__':
    main()
