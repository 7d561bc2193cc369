"""Puts the table of planted bugs into DESIGN.md."""
import glob
import json
import os
import re

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | reported by | what it breaks |', '|-----|-------------|----------------|']
for d in sorted(glob.glob(H + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append(f"| {d.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} |")
p = H + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
