"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, 'DESIGN.md')
with open(path) as f:
    text = f.read()
head = text[:text.index('## Planted bugs')]
rows = []
for meta in glob.glob(os.path.join(here, 'seeded', '*', 'meta.json')):
    with open(meta) as f:
        m = json.load(f)
    rows.append((m['property'], os.path.basename(os.path.dirname(meta)),
                 ' '.join(m['needs'].split())))
rows.sort()
head += '''## Planted bugs

%d changes are in `seeded/`. Each passes the tests of the repository; the (quick) check of the
property it breaks, given first, reports a violation for each of them (those that were first missed
led to what the specifications have about: elements computed in several types, variances that are
NaN, NumPy scalars given by wrapped functions, empty tags, starred and dotted calls in the updater,
observation between construction steps of pickled quantities...). Some are also reported by the
checks of neighbouring properties.

| Check | Change | What it needs in order to manifest |
|---|---|---|
''' % len(rows)
for p, i, n in rows:
    head += '| %s | %s | %s |\n' % (p, i, n.replace('|', '\\|'))
with open(path, 'w') as f:
    f.write(head)
