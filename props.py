#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.  A property with harness/<id>.cc is claimed; the others give a reason."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), na=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = list(observe)
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)
    if na: NA.append((id, na))

exec(open(V + '/props_table.py').read())

if __name__ == '__main__':
    with open(V + '/properties.jsonl', 'w') as f:
        for d in P: f.write(json.dumps(d) + '\n')
    checks = []
    na = dict(NA)
    for d in P:
        i = d['id']
        if i in na: continue
        if not os.path.exists(f'{V}/harness/{i}.cc'):
            na[i] = 'no check built yet'
            continue
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json',
                           technique='bounded symbolic execution of the compiled code (LLVM IR instrumentation, Z3), counterexamples replayed on the plain -O2 build', level='model_checking',
                           level_note='Every path of the real functions within the stated bounds is explored and each assertion is shown unsatisfiable-to-violate by Z3 per path; nothing is claimed '
                                      'outside the bounds (see the harness META and evidence). Trusted: clang 18, the instrumentation and runtime in engine/, Z3, and the harness model. '
                                      'Each path witness is re-run on an uninstrumented g++ -O2 build.'))
    json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)"', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())],
                   notes='Run any check as: python3 check.py ID [--tier quick|thorough]; replay a counterexample with: python3 check.py --replay FILE. See DESIGN.md.'),
              open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'checks')
