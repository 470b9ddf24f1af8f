"""Dev tool: rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/')))
p = HERE + '/DESIGN.md'
s = open(p).read()
a = s.index('| seed | caught by | needs |')
b = s.index('\n\n', a)
open(p, 'w').write(s[:a] + '| seed | caught by | needs |\n|---|---|---|\n' + '\n'.join(rows) + s[b:])
print(len(rows))
