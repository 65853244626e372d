"""rewrites the table of seeded bugs in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(os.path.join(here, 'tools', 'missed_first.txt')).read().split())
rows = ['| bug | what it breaks | needs | |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    esc = lambda s: ' '.join(s.split()).replace('|', '/')   # noqa: E731
    rows.append('| %s | %s | %s | %s |' % (n, esc(d['what_it_breaks']), esc(d['needs']),
                                         'missed first' if n in MISSED else ''))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->\n'
if 'SEEDED_TABLE\n' in s:
    s = s.replace('SEEDED_TABLE\n', a + b)
s = re.sub(re.escape(a) + '.*?' + re.escape(b), lambda m: a + '\n'.join(rows) + '\n' + b, s, flags=re.S)
open(p, 'w').write(s)
