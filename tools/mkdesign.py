#!/usr/bin/env python3
"""rewrites the generated part of DESIGN.md (after the marker) from the catalog,
the harnesses, the planted bugs and the known findings"""
import ast, importlib.util, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('catalog', V + '/tools/catalog.py')
cat = importlib.util.module_from_spec(spec)
spec.loader.exec_module(cat)
MARK = '<!-- generated by tools/mkdesign.py -->\n'
out = ['\n## Properties\n\nEach is decided by the harnesses listed (`props/<id>.py`): their symbolic inputs range over all '
       'values within the bounds, their assertions are the oracle (written from the statement, not from the code). '
       'A quick check takes 5 to 60 s on 8 cores, all of them about 10 minutes.\n']
for p in cat.PROPS:
    i = p['id']
    if i in [n['property'] for n in cat.NA]:
        continue
    t = ast.parse(open(V + '/props/%s.py' % i).read())
    hs, bounds = [], ''
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'BOUNDS':
            bounds = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef) and any(isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness' for d in n.decorator_list):
            hs.append((n.name, (ast.get_docstring(n) or '').split('\n')[0]))
    out.append('\n### %s %s\n\nBounds: %s.\n' % (i, p['title'], bounds.rstrip('.')))
    out.append('Harnesses: ' + '; '.join('`%s`%s' % (a, ' (%s)' % b.rstrip('.') if b else '') for a, b in hs) + '.\n')
out.append('\n## Not applicable\n\n' + (''.join('* %s: %s\n' % (n['property'], n['reason']) for n in cat.NA) or 'No stated property.\n'))
out.append('\n## Planted bugs\n\nEach was run with `tools/bug.py` (build, stable tests, demonstration, check); all those below are caught by the check of their property.\n\n'
           '| bug | property | needs | breaks |\n|---|---|---|---|\n')
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % b))
    out.append('| %s | %s | %s | %s |\n' % (b, m['property'], m['needs'], m['what_it_breaks']))
k = json.load(open(V + '/known_findings.json'))
out.append('\n## Known findings (not repaired: a stored test reference pins them, or the repair is not small)\n\n')
for f in k['findings']:
    out.append('* %s `%s` %s: %s\n' % (f['property'], f['harness'], json.dumps(f['case']), f['what']))
out.append('\n## Repaired defects\n\nFound by the checks (or while writing them), each repaired by a `fix:` commit of /repo.\n\n')
for f in k['fixed']:
    out.append('* %s\n' % f.replace('fixed: property=', ''))
s = open(V + '/DESIGN.md').read().split(MARK)[0].rstrip('\n') + '\n'
open(V + '/DESIGN.md', 'w').write(s + '\n' + MARK + ''.join(out))
