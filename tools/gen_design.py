"""write DESIGN.md from its parts"""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from design_how import HOW
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## 3. Properties', '']
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
for p in props:
    i = p['id']
    c = {}
    for n in ast.parse(open('%s/checks/%s.py' % (V, i)).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'OUTSIDE'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    out += ['### %s %s' % (i, p['title']), '', p['statement'], '', '* Decided by: ' + HOW[i], '* Bounds: ' + c.get('BOUNDS', ''), '* Outside: ' + c.get('OUTSIDE', ''),
            '* Why tests cannot: ' + p['why_tests_cant'], '']
out += ['## 4. Not applicable', '']
na = V + '/tools/not_applicable.json'
L = json.load(open(na)) if os.path.exists(na) else []
out += ['* %s: %s' % (x.get('property') or x.get('id'), x['reason']) for x in L] or ['Every property of properties.jsonl is claimed. Parts of the repository without a claim are listed in section 2.']
out += ['', '## 5. Genuine defects found and repaired', '', 'Each is a "fix:" commit in /repo, recorded in known_findings.json; the check reports the violation again when the fix is reverted.', '']
for f in json.load(open(V + '/known_findings.json'))['findings']:
    out.append('* ' + f['text'])
out += ['', '## 6. Planted bugs', '', 'From `seeded/`; the result column was recorded by running the check of the property against the planted tree (quick tier).', '',
        '| id | property | needs | breaks | result |', '|---|---|---|---|---|']
res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    out.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'], m['what_it_breaks'], res.get(s, '')))
out += ['', open(V + '/tools/design_tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
