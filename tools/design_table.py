"rewrites the table of planted bugs at its place in DESIGN.md"
import os, json, re
rows = []
for d in sorted(os.listdir('/verif/seeded')):
    m = json.load(open('/verif/seeded/%s/meta.json' % d)); rows.append('| %s | %s | %s |' % (d, m['property'], m['what_it_breaks']))
p = '/verif/DESIGN.md'; s = open(p).read()
h = '| id | caught by | what it breaks |\n|----|-----------|----------------|\n'
a = s.index(h) + len(h); b = s.index('\n\n', a)
open(p, 'w').write(s[:a] + '\n'.join(rows) + s[b:])
