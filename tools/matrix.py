"""matrix.py FILE: put the output of detect.py into DESIGN.md."""
import re, sys
rows = ['| planted change | check | quick tier |', '|---|---|---|']
for l in open(sys.argv[1]):
    m = re.match(r'(c\d\d-\S+) (C\d\d) (CAUGHT|MISSED)', l)
    if m:
        rows.append(f'| {m[1]} | {m[2]} | {m[3].lower()} |')
p = '/verif/DESIGN.md'
s = open(p).read()
a = s.index('<!-- matrix -->') + len('<!-- matrix -->')
b = s.index('Those missed at first')
open(p, 'w').write(s[:a] + '\n\n' + '\n'.join(rows) + '\n\n' + s[b:])
