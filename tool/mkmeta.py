#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
PM = ['spffl/intmath/intmod_t.cpp', 'spffl/polynomials/f2_polymod_t.cpp', 'spffl/polynomials/f2n_polymod_t.cpp',
      'spffl/polynomials/fp_polymod_t.cpp', 'spffl/polynomials/fpn_polymod_t.cpp']
FR = ['spffl/intmath/intrat_t.cpp', 'spffl/rationals/f2_polyrat_t.cpp', 'spffl/rationals/f2n_polyrat_t.cpp', 'spffl/rationals/fp_polyrat_t.cpp']
AV = 'symbolic value analysis of compiler IR (normal forms per path)'
props = []
na = []


def P(id, title, statement, over, text, why, files, mech, level, technique, note, state=(), observe=(), claim=True):
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
                      _level=level, _tech=technique, _note=note, _claim=claim))


def NA(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech, None, None, None, claim=False)
    na.append(dict(property=id, reason=reason))


exec(open(os.path.join(V, 'tool', 'proptable.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(props, key=lambda p: p['id']):
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                      thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                      technique=p['_tech'], level=p['_level'], level_note=p['_note'])
                 for p in sorted(props, key=lambda p: p['id']) if p['_claim']],
         not_applicable=sorted(na, key=lambda x: x['property']),
         notes='Static analysis only: the checks read /repo\'s current source through clang\'s IR and execute none of it.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties', len(m['checks']), 'checks', len(na), 'not applicable')
