"""Write the table of the planted bugs in DESIGN.md (between the markers)."""
import json, re
from pathlib import Path
R = Path(__file__).resolve().parent.parent
rows = ['| bug | property (check that catches it) | what breaks | needs |', '|---|---|---|---|']
for m in sorted(R.glob('seeded/*/meta.json')):
    d = json.loads(m.read_text())
    rows.append('| {} | {} | {} | {} |'.format(m.parent.name, d['property'], d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/')))
p = R / 'DESIGN.md'
s = p.read_text()
table = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('@SEEDS@', table) if '@SEEDS@' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: table, s, flags=re.S)
p.write_text(s)
