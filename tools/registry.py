#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below.

A property is claimed when checks/<id>.py exists; otherwise it is listed as not
applicable with its reason.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FORMS = 'abstract interpretation of the syntax trees into normal forms, compared with the normal form of a specification'

P = []


def prop(id, title, statement, quantifier, over, why, files, mechanism, observe=(), technique=FORMS, note='', na='',
         state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quantifier),
                  why_tests_cant=why,
                  anchors=dict(files=['pynare/' + f for f in files],
                               mechanism=[dict(name=n, where='pynare/' + w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where='pynare/' + w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None),
                  _technique=technique, _note=note, _na=na))


exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())


def main():
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in sorted(P, key=lambda p: p['id']):
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'checks', i + '.py')):
            checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i,
                               thorough_cmd='python3 check.py %s thorough' % i,
                               evidence_file='evidence/%s.json' % i,
                               technique=p['_technique'], level='other', level_note=p['_note'] or DEFAULT_NOTE))
        else:
            na.append(dict(property=i, reason=p['_na'] or 'the static check of this property is not built yet'))
    m = dict(version=1, setup_cmd='python3 -m compileall -q -o 0 /dev/null || true', checks=checks,
             not_applicable=na,
             notes='All checks read the current source under /repo/pynare and execute nothing of it; no hooks.')
    m['setup_cmd'] = 'python3 -c "import ast, json, sys; assert sys.version_info >= (3, 8)"'
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    print(len(checks), 'claimed', len(na), 'not')


DEFAULT_NOTE = ('Static and for all inputs within the model: every obligation is discharged when the code and the specification have '
                'the same normal form in exact real arithmetic with numpy/scipy routines uninterpreted; a definite difference is a '
                'violation; a difference the algebra cannot settle is reported as UNDECIDED and raises no alarm. Trusted: the '
                'specification, the laws of the term algebra, and the semantics given to Python and numpy constructs.')

if __name__ == '__main__':
    main()
