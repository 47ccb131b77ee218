"""Writes MANIFEST.json from properties.jsonl and the drivers that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('TLC checks the design specification exhaustively within the bounds '
        'of its configuration; the implementation is bound to it by '
        'validating recorded executions (scenarios enumerated by TLC and '
        'seeded random ones) against the same operators, so code is covered '
        'for the executions explored, not proved. Trusted: TLC, the '
        'encoding of values in harness/enc.py, pandas/numpy/scipy. ')
SPECIFIC = {}


def main():
    props = [json.loads(s) for s in open(os.path.join(
        HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(HERE, 'harness', 'props',
                                       i.lower() + '.py')):
            cmd = '/opt/venv/bin/python harness/run.py check %s --tier ' % i
            checks.append(dict(
                property=i, quick_cmd=cmd + 'quick',
                thorough_cmd=cmd + 'thorough',
                evidence_file='evidence/%s.json' % i,
                technique='TLA+ specification, TLC model checking and TLC '
                          'trace validation of recorded executions',
                level='model_checking', level_note=NOTE + SPECIFIC.get(i, '')
            ))
        else:
            na.append(dict(property=i, reason='Check under construction: '
                           'not claimed yet.'))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python harness/setup.py',
             checks=checks, not_applicable=na,
             notes='Each check: harness/run.py (see its docstring). '
                   'No hooks in /repo are needed: probe models passed '
                   'through the public API observe the implementation.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
