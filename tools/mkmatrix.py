"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {'w2-onlooker-counter': 'MISSED: needs different answers within one iteration',
         'w4-land-adjusted-in-place': 'first missed; deviating index answers added, duplicates no longer count as undecided',
         't08-unlimited-pop': 'first missed; names differing from documented ones in one step added',
         't10-aba-unseeded': 'first missed; a repair that draws on every call added',
         't11-loudness-kept': 'first missed; histories with 60 iterations added',
         't16-weierstrass-cache': 'first missed; comparison with pristine processes added'}
rows = []
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    w = m['what_it_breaks'].replace('|', '/').replace('\n', ' ')
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], w if len(w) < 160 else w[:157] + '...', NOTES.get(i, m.get('note', ''))))
p = H + '/DESIGN.md'
s = open(p).read()
t = '<!-- matrix -->\n| change | caught by | what it breaks | note |\n| --- | --- | --- | --- |\n' + '\n'.join(rows) + '\n<!-- /matrix -->'
s = re.sub(r'<!-- matrix -->.*?<!-- /matrix -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
