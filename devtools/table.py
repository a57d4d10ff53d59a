"""table.py: writes the table of planted bugs between the marks in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | what it breaks | what it needs |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], ' '.join(m['what_it_breaks'].split()), ' '.join(m['needs'].split())))
t = open(V + '/DESIGN.md').read()
t = re.sub(r'<!-- table -->.*<!-- end -->', lambda _: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- end -->', t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
