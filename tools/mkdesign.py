"""Replaces the table of seeded changes at the end of DESIGN.md from a sweep log:
lines 'seed property rc=N SECONDSs COUNT'."""
import json
import os
import re
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for path in sys.argv[1:]:
    for line in open(path):
        m = re.match(r'(\S+) (C\d\d) rc=(\d+) ([\d.]+)s', line)
        if m:
            rows[m.group(1)] = m.groups()[1:]
p = os.path.join(here, 'DESIGN.md')
text = open(p).read()
head, _, old = text.partition('| seed | ')
for line in old.splitlines():
    c = [x.strip() for x in line.strip('|').split('|')]
    if len(c) == 5 and c[0].startswith('c') and c[0] not in rows:
        rows[c[0]] = (c[1], '1' if c[2] == 'caught' else '0', c[3])
out = ['| seed | property | verdict | s | what it takes |', '|---|---|---|---|---|']
for s in sorted(rows):
    meta = os.path.join(here, 'seeded', s, 'meta.json')
    if os.path.exists(meta):
        prop, rc, sec = rows[s]
        out.append('| %s | %s | %s | %s | %s |' % (
            s, prop, 'caught' if rc == '1' else 'missed', sec,
            json.load(open(meta))['needs'].replace('|', '/').replace('\n', ' ')))
open(p, 'w').write(head + '\n'.join(out) + '\n')
