"""rewrites the table of planted changes in DESIGN.md, from seeded/*/meta.json"""
import collections, glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for m in sorted(glob.glob(here + '/seeded/*/meta.json')):
    by[json.load(open(m))['property']].append(os.path.basename(os.path.dirname(m)))
table = '<!-- planted -->\n| check | reports |\n|---|---|\n' + ''.join(f"| {p} | {', '.join(v)} |\n" for p, v in sorted(by.items())) + '<!-- /planted -->'
d = here + '/DESIGN.md'
s = open(d).read()
s = s.replace('@TABLE@', table) if '@TABLE@' in s else re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda _: table, s, flags=re.S)
open(d, 'w').write(s)
