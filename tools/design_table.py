"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = '## Planted bugs\n'
text = open(here + '/DESIGN.md').read().split(head)[0]
rows = []
for i in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{i}/meta.json'))
    rows.append((m['property'], i, m['what_it_breaks'].strip(), m['needs'].strip(), m.get('caught_by', m['property'])))
rows.sort()
out = [text + head, '',
       'Each is in `seeded/<name>/` with a demonstration. Every one is caught by the quick check of its own property (columns: property, name,',
       'what breaks, what it takes to show). Many are caught by further checks as well; only the one that counts is listed.', '',
       '| caught by | change | what breaks | needs |', '|---|---|---|---|']
out += [f'| {r[4]} | {r[1]} | {r[2].replace("|", "/")} | {r[3].replace("|", "/")} |' for r in rows]
open(here + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
