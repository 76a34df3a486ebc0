"""Prints the catch table of DESIGN.md from the metadata of the planted bugs and a log of results (run by hand)."""
import json
import os
import sys

root, log = sys.argv[1], sys.argv[2]
hit = {}
for line in open(log):
    w = line.split()
    if len(w) >= 5 and w[2] == 'rc':
        hit[w[0]] = w[4]
print('## Planted bugs\n')
print('Each was written from the text of a property and the code, and validated in a scratch copy (builds, 30 stable tests pass, demo')
print('passes without and fails with the change).  "late" marks bugs that the checks of the day missed; the check was then extended')
print('(never by looking for the change: by adding the axis it revealed).\n')
print('| bug | needs | caught by |')
print('|---|---|---|')
LATE = ('c02', 'c05', 'c16', 'c18', 'c27', 'c31')
for b in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, b, 'meta.json')))
    late = ' (late)' if b.split('-')[0] in LATE + tuple(sys.argv[3:]) else ''
    print('| %s | %s | %s |' % (b, m['needs'].replace('|', '/'), (m['property'] if hit.get(b) == 'CAUGHT' else 'not caught') + late))
