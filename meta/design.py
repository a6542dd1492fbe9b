"""python3 meta/design.py [--measure]: rewrites DESIGN.md (with --measure takes the coverage of the quick runs in evidence/ over)."""
import ast, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'meta'))
from properties import P
K = json.load(open(os.path.join(HERE, 'known_findings.json')))
mp = os.path.join(HERE, 'meta', 'measured.json')
M = json.load(open(mp)) if os.path.exists(mp) else {}
if '--measure' in sys.argv:
    for f in sorted(os.listdir(os.path.join(HERE, 'evidence'))):
        d = json.load(open(os.path.join(HERE, 'evidence', f)))
        c = d['coverage']
        if d['tier'] in ('quick', 'thorough'):
            M.setdefault(d['property'], {})[d['tier']] = [c['states'], c['transitions'], c['traces_validated_against_impl'], len(c['jobs']), round(d['wall_seconds'] if 'wall_seconds' in d else d.get("wall_s", 0))]
    json.dump(M, open(mp, 'w'), indent=0, sort_keys=True)
out = [open(os.path.join(HERE, 'meta', 'design_head.md')).read(), '## Properties\n']
for p in P:
    i = p['id']
    src = open(os.path.join(HERE, 'mc', 'checks', i.lower() + '.py')).read()
    tree = ast.parse(src)
    doc = ast.get_docstring(tree)
    ass = [ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS']
    out.append('### %s %s\n' % (i, p['title']))
    out.append('*Enumerated and compared*: ' + ' '.join(doc.split()) + '\n')
    out.append('*Bounds*: ' + p['quantifier']['text'] + '.\n')
    out.append('*Beyond the tests*: ' + p['why_tests_cant'] + '\n')
    if ass and ass[0]:
        out.append('*Assumptions*: ' + '; '.join(ass[0]) + '.\n')
    for t in ('quick', 'thorough'):
        if t in M.get(i, {}):
            s, tr, n, j, w = M[i][t]
            out.append('*Coverage, %s tier*: %d states, %d transitions, %d compared executions in %d jobs, %d s.\n' % (t, s, tr, n, j, w))
    fx = [x.split(' ', 3)[2:] for x in K['fixed'] if 'property=%s ' % i in x]
    if fx:
        out.append('*Genuine defects found and repaired (%d)*: ' % len(fx) + '; '.join('%s (%s)' % (b, a) for a, b in fx) + '.\n')
    kn = [x for x in K['known'] if x['property'] == i]
    if kn:
        out.append('*Known findings (not repaired)*: ' + '; '.join('`%s`: %s' % (x['key'], x['what']) for x in kn) + '.\n')
out.append(open(os.path.join(HERE, 'meta', 'design_tail.md')).read())
sd = os.path.join(HERE, 'seeded')
rows = []
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks']))
out.append('\n## Planted bugs\n\nAll are caught by the check of their property.\n\n| change | property | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
print('DESIGN.md', len('\n'.join(out)))
