#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/properties.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=(), state=(), level='model_checking',
         technique=None, note=None, claimed=True, reason=None):
    assert len(title) <= 80, (pid, len(title))
    d = dict(id=pid, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          hook_needed=None))
    if observe:
        d['anchors']['observe_at'] = list(observe)
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append((d, dict(technique=technique, note=note, claimed=claimed, level=level, reason=reason)))


exec(open(os.path.join(V, 'tools', 'property_list.py')).read())


def main():
    P.sort(key=lambda x: x[0]['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, _ in P:
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for d, m in P:
        pid = d['id']
        if m['claimed'] and os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')):
            checks.append(dict(
                property=pid, quick_cmd='python3 check.py %s' % pid,
                thorough_cmd='python3 check.py %s' % pid,
                technique=m['technique'], level=m['level'], level_note=m['note']))
        else:
            na.append(dict(property=pid, reason=m['reason'] or 'check not built yet'))
    man = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo are needed: the checks drive public calls and stand in for '
                     'system calls inside their own processes. Run any check with VERIF_SEED and '
                     'VERIF_TIER set; see DESIGN.md.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(checks), 'checks')


if __name__ == '__main__':
    main()
