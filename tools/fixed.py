"""fixed.py PROP COMMIT TEXT...: record a fixed defect in known_findings.json"""
import json, subprocess, sys
f = '/verif/known_findings.json'
k = json.load(open(f))
for i in range(1, len(sys.argv), 3):
    p, c, t = sys.argv[i:i + 3]
    c = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h', c]).decode().strip()
    k['fixed'].append('fixed: property=%s %s %s' % (p, c, t))
json.dump(k, open(f, 'w'), indent=1)
