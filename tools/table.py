"""Write the table of planted bugs at the end of DESIGN.md: python3 tools/table.py"""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = H + '/DESIGN.md'; s = open(p).read()
rows = ['## Planted bugs', '',
        'Kept in `seeded/`; each passes the stable tests, its demo fails with it and passes without it. "caught" names the checks whose quick run reports it.', '',
        '| id | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['needs'].replace('|', '/'), d.get('caught', d['property'])))
open(p, 'w').write(s[:s.index('## Planted bugs')] + '\n'.join(rows) + '\n')
