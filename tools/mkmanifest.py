"""Writes /verif/MANIFEST.json for the properties whose checks exist"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harness.main import WHERE
NOTE = {}
BASE = ('TLC checks the specification exhaustively within small constants; every transition of that small model and seeded random '
        'behaviours of a larger one are replayed on the real code through its public API and compared after every step. ')
TRUST = 'Trusts TLC, the replay adapter and floating-point tolerances (about 1e-9 relative); values outside the modelled grids are not covered.'
NOTES = {
    'C01': 'Affine maps with rational coefficients; up to 3 transforms; random histories up to 40 steps.',
}
checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if not os.path.exists(os.path.join(HERE, 'harness', WHERE[i] + '.py')):
        continue
    if 'def %s(' % i.lower() not in open(os.path.join(HERE, 'harness', WHERE[i] + '.py')).read():
        continue
    checks.append(dict(property=i, quick_cmd='bin/check %s' % i, thorough_cmd='bin/check %s' % i,
                       technique='TLA+ specification checked with TLC, behaviours replayed on the implementation',
                       level='model_checking', level_note=BASE + NOTES.get(i, '') + ' ' + TRUST))
man = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=[],
           notes='No hooks in /repo are needed: all observations go through the public API.')
done = {c['property'] for c in checks}
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    if p['id'] not in done:
        man['not_applicable'].append(dict(property=p['id'], reason='check still being built'))
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
