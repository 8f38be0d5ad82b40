"""Regenerates the table of planted bugs in DESIGN.md."""
import json, glob, os, re
d = {}
for m in glob.glob('seeded/*/meta.json'):
    d.setdefault(json.load(open(m))['property'], []).append(os.path.basename(os.path.dirname(m)).split('-', 1)[1])
s = open('DESIGN.md').read()
rows = ''.join('| %s | %s |\n' % (p, ', '.join(sorted(d[p]))) for p in sorted(d))
s = re.sub(r'(\|---\|---\|\n)(\| C\d\d \|.*\n)+', lambda m: m.group(1) + rows, s)
s = re.sub(r'\*\*Planted bugs\.\*\* \d+ changes', '**Planted bugs.** %d changes' % sum(map(len, d.values())), s)
open('DESIGN.md', 'w').write(s)
