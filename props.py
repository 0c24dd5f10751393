#!/usr/bin/env python3
"""The single table of properties: writes properties.jsonl and MANIFEST.json (python3 props.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROWS, NA = [], []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    ROWS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over.split(), qtext=' '.join(qtext.split()),
                     why=' '.join(why.split()), files=files.split(), mech=mech, technique=technique, note=' '.join(note.split()),
                     state=state or [], observe=observe or []))


def N(id, title, statement, over, qtext, why, files, mech, reason):
    P(id, title, statement, over, qtext, why, files, mech, None, '')
    NA.append({'property': id, 'reason': ' '.join(reason.split())})


S = 'path-sensitive symbolic interpretation of the syntax tree (helpers inlined, loops summarised), '
T = 'No part of PrivCount runs; the analysed facts are those of the current source. Trusted: the parser (Jython), the interpreter in pcheck/, and the contracts of the external libraries named in the evidence. '

exec(open(os.path.join(HERE, 'props_table.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for r in sorted(ROWS, key=lambda r: r['id']):
            assert len(r['title']) <= 80, (r['id'], len(r['title']))
            a = {'files': r['files'], 'mechanism': [{'name': n, 'where': w} for n, w in r['mech']]}
            if r['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in r['state']]
            if r['observe']:
                a['observe_at'] = r['observe']
            a['hook_needed'] = None
            f.write(json.dumps({'id': r['id'], 'title': r['title'], 'statement': r['statement'],
                                'quantifier': {'over': r['over'], 'text': r['qtext']}, 'why_tests_cant': r['why'], 'anchors': a}) + '\n')
    na = {n['property'] for n in NA}
    checks = [{'property': r['id'], 'quick_cmd': 'python3 check.py %s --quick' % r['id'],
               'thorough_cmd': 'python3 check.py %s --thorough' % r['id'], 'evidence_file': 'evidence/%s.json' % r['id'],
               'technique': r['technique'], 'level': 'other', 'level_note': T + r['note']}
              for r in sorted(ROWS, key=lambda r: r['id']) if r['id'] not in na]
    m = {'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': checks, 'not_applicable': sorted(NA, key=lambda n: n['property']),
         'notes': 'Static analysis only. /repo is Python 2: its syntax trees are obtained by parsing with the Jython that builds it, '
                  'nothing is imported or executed. Each check re-reads /repo on every run.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for r in ROWS:
        if r['id'] not in na:
            assert os.path.exists(os.path.join(HERE, 'pcheck/checks/%s.py' % r['id'].lower())), r['id']


main()
