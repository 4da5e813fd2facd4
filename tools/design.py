#!/opt/venv/bin/python
"""rewrite the generated parts of DESIGN.md (between the marks <!-- name --> and <!-- end -->)"""
import sys, os, json, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.setrecursionlimit(20000)
from dv import engine
b = json.load(open(V + '/baseline.json')); props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = []
for p in props:
    out.append('\n#### %s %s\n' % (p['id'], p['title']))
    for n, c in engine.load_contract_real(p['id'], '/repo').items():
        x = b.get(p['id'], {}).get(n, {})
        how = 'bounded: ' + c.bounded if not c.symbolic else ('proved (%d obligations)%s' % (x.get('obligations', 0), '; ' + c.bounded if c.bounded else '') if x.get('proved') else 'not proved within the budget; bounded')
        out.append('- `%s` %s. *%s*' % (n, c.title, how))
caught = json.load(open(V + '/tools/caught.json'))
sd = ['| seed | property | needs | caught by |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    sd.append('| %s | %s | %s | %s |' % (i, d['property'], d['needs'], caught.get(i, '?')))
fx = [x for x in json.load(open(V + '/known_findings.json'))['fixed']]
gen = {'contracts': '\n'.join(out), 'seeds': '\n'.join(sd), 'fixed': '\n'.join('- ' + x[len('fixed: '):] if isinstance(x, str) else '- %s' % x for x in fx)}
f = V + '/DESIGN.md'; s = open(f).read()
for k, v in gen.items(): s = re.sub(r'(<!-- %s -->\n).*?(<!-- end -->)' % k, lambda m: m.group(1) + v + '\n' + m.group(2), s, flags=re.S)
open(f, 'w').write(s)
