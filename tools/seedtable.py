# fills the table of planted bugs in DESIGN.md
import json, os, re
rows = []
for i in sorted(os.listdir('/verif/seeded')):
    m = json.load(open(f'/verif/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['property']} |")
s = open('/verif/DESIGN.md').read()
h = "|---------|--------|-----------|\n"
a = s.index(h) + len(h)
b = s.index("\n## What is not covered")
open('/verif/DESIGN.md', 'w').write(s[:a] + "\n".join(rows) + "\n" + s[b:])
