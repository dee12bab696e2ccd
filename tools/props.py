#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing; both files are committed)."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
TECH = 'value-flow summary (normal-form term) of the MIR compared with the specified term'
TECHS = {
    'P12': 'def-before-use analysis over the value-flow summaries: every read of a lazily computed table comes after the call that computes it',
    'P23': 'ordered effect automaton of run/main (value-flow summary of the MIR) compared with the specified sequence',
    'P25': 'reachability analysis of panicking operations: the guard of every panic is shown to be unsatisfiable as a Boolean function over normal-form terms',
    'P26': 'taint analysis over the value-flow summaries: no output depends on hash order, time, environment, addresses or randomness',
    'P27': 'effect analysis over the resolved call graph: every external effect is on the allowed list at an allowed place',
    'P28': 'interprocedural dataflow on error-typed values (fate of each Result) and typestate of buffered writers',
    'P30': 'guard analysis: the condition of every error exit of the parser is shown to be false under the rules of the format',
    'P31': 'progress analysis on the control flow graph of every loop (loop-carried state, cuts) and decreasing-argument analysis of every recursive call'}
NOTE = ('Sound for the modelled std/serde/csv operations and for every input at once; assumes the models of external-crate calls '
        '(engine/models.py) and rustc\'s MIR. Constructs outside the models leave an obligation undecided (listed in the evidence), never alarmed.')


def p(id, title, statement, over, text, why, files, mech, technique=TECH, note=NOTE, level='other', claimed=True, observe=()):
    technique = TECHS.get(id, technique)
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **(dict(observe_at=list(observe)) if observe else {}))),
              technique, note, level, claimed))


def na(id, reason):
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(ROOT, 'tools', 'proplist.py')).read())

if __name__ == '__main__':
    P.sort(key=lambda x: x[0]['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for d, *_ in P:
            assert len(d['title']) <= 80, d['id']
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    nas = {x['property'] for x in NA}
    m = dict(version=1, setup_cmd='python3 engine/setup.py',
             checks=[dict(property=d['id'], quick_cmd='python3 engine/check.py %s' % d['id'], thorough_cmd='python3 engine/check.py %s --thorough' % d['id'],
                          technique=t, level=l, level_note=n) for d, t, n, l, c in P if d['id'] not in nas],
             not_applicable=NA,
             notes='All checks are static: they compile /repo with a rustc driver (driver/) that dumps resolved MIR, and decide from that dump.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    ids = {d['id'] for d, *_ in P}
    assert nas <= ids
