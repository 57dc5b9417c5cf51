#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/catalog.py"""
import importlib.util, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('catalog', V + '/tools/catalog.py')
cat = importlib.util.module_from_spec(spec)
spec.loader.exec_module(cat)
NOTE = ('bounded: z3 decides every path of the real code for all values within the bounds '
        '(%s); reals stand for floats (tolerance 1e-6), numpy/scipy calls are modelled by '
        'facades that are cross-checked by replaying paths concretely on the real code')
with open(V + '/properties.jsonl', 'w') as f:
    for p in cat.PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k != 'bounds'}) + '\n')
man = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=cat.NA)
for p in cat.PROPS:
    if p['id'] in [n['property'] for n in cat.NA]:
        continue
    src = open(V + '/props/%s.py' % p['id']).read()
    ns = {}
    i = src.index('BOUNDS = ')
    exec(src[i:src.index(')\n', i) + 2], ns)
    man['checks'].append(dict(
        property=p['id'], quick_cmd='./check.sh %s quick' % p['id'],
        thorough_cmd='./check.sh %s thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique='symbolic execution of the real source + z3, counterexamples replayed',
        level='model_checking', level_note=NOTE % ns['BOUNDS']))
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(cat.PROPS), 'properties', len(man['checks']), 'checks')
