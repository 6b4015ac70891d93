"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
missed = dict(l.split(None, 1) for l in open(V + '/tools/seeds/missed.txt') if l.strip())
rows = []
for d in sorted(os.listdir(V + '/seeded'), key=lambda x: int(re.match(r's(\d+)', x)[1])):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    k = d.split('-')[0]
    note = missed.get(k, '').strip()
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {note} |")
t = open(V + '/DESIGN.md').read()
head, rest = t.split('<!-- seeds -->\n', 1)
_, tail = rest.split('<!-- /seeds -->\n', 1)
t = head + '<!-- seeds -->\n| bug | caught by the check of | what it breaks | at first missed; what was added |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- /seeds -->\n' + tail
open(V + '/DESIGN.md', 'w').write(t)
