#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md. Used by hand only; no check reads seeded/."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (here, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks']))
text = '''## Planted bugs

Each of these was applied to /repo, built, passed all stable tests, made its demonstration fail and was reported by the quick check
of the property named (exit 1 with that property's VIOLATION line); none needed the thorough tier. Beyond them, some 580 further
bugs were planted in scratch copies while the checks grew (a list of edits per area, each built and run against the quick check of
its property), and a mutation campaign replaced operators and constants line by line. What was missed then led to the workloads and
oracles above, or turned out to change no behaviour; the remaining ones are named under the limits of their property.

| planted bug | caught by | needs | breaks |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
p = here + '/DESIGN.md'
s = open(p).read()
s = s[:s.index('## Planted bugs')] + text
open(p, 'w').write(s)
