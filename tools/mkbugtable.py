"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {  # missed when first planted, and what was done
    'C21-cast-order': 'part "lookup": lookups after clone, map, casts were added',
    'C15-top-cell': 'part "cells" was added',
    'C28-float-order': 'conversion of polygons stored in another order than their boundary was added',
    'C10-count-width': 'the "huge" parts were added',
    'C16-step-limit': 'part "scatter" was added',
    'C20-no-shuffle': 'part "spread" was added',
    'C07-small-denominator': 'part "types" was added',
    'C12-small-area': 'floats are scaled by powers of two',
    'C21-narrow-length': 'the "giant" part looks at lengths of whole and nearly whole ranges',
}
p = root + '/DESIGN.md'
s = open(p).read()
mark = '| planted bug | needs | caught by |\n|---|---|---|\n'
a = s.index(mark) + len(mark)
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    n = m['needs'].replace('|', '/')
    star = ' *' if d in missed else ''
    why = f" ({missed[d]})" if d in missed else ''
    rows.append(f"| {d}{star} | {n} | {m['property']}{why} |\n")
open(p, 'w').write(s[:a] + ''.join(rows))
