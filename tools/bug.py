#!/usr/bin/env python3
"""plant a bug: bug.py SPEC.py...   (SPEC defines ID, PROP, FILE, SUBS=[(old,new)...],
NEEDS, BREAKS, DEMO (python source)).  Applies it to a scratch copy of /repo, confirms that
the tests pass and the demo fails, runs the check on the copy, and stores /verif/seeded/ID."""
import json, os, subprocess, sys, tempfile, shutil
R = '/repo'
DEMO_SH = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: the property is broken
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=/repo
export MPLCONFIGDIR="$(mktemp -d)"
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
PY=/opt/venv/bin/python
"$PY" -W ignore "$HERE/demo.py"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **k)


def tests(W):
    d = tempfile.mkdtemp()
    try:
        sh('sed "s#/repo#%s#g" /opt/vp/env.sh > %s/env.sh; sed "s#/repo#%s#g; s#/opt/vp/env.sh#%s/env.sh#" '
           '/opt/vp/test.sh > %s/test.sh; bash %s/test.sh %s/o.json' % (W, d, W, d, d, d, d))
        b = json.load(open('/opt/vp/BASELINE.json'))
        o = json.load(open(d + '/o.json'))
        k = [k for k in o if 'pass' in k][0]
        m = sorted(set(b['stable']) - set(o[k]))
        return 'tests-missing=%d %s' % (len(m), m[:3] if m else '')
    finally:
        shutil.rmtree(d)


def main(spec, props=None):
    ns = {}
    exec(open(spec).read(), ns)
    d = '/verif/seeded/' + ns['ID']
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip())
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
    res = []
    W = tempfile.mkdtemp(prefix='wt.', dir='/tmp')
    try:
        sh('cp -a /repo/. %s/ && git -C %s checkout -q -f HEAD -- .' % (W, W))
        demo = 'sed "s#/repo#%s#g" demo.sh > /tmp/demo.%d.sh; cp demo.py %s.demo.py; ' % (W, os.getpid(), W) + \
            'mkdir -p %s.d; cp * %s.d/; sed -i "s#/repo#%s#g" %s.d/demo.sh; cd %s; bash %s.d/demo.sh' % (W, W, W, W, W, W)
        r = sh(demo, cwd=d)
        res.append('demo-clean=%d' % r.returncode)
        if r.returncode:
            print(r.stdout[-1500:])
        f = W + '/IMTreatment/' + ns['FILE']
        s = open(f).read()
        for a, b in ns['SUBS']:
            assert s.count(a) == 1, (s.count(a), a)
            s = s.replace(a, b)
        open(f, 'w').write(s)
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % W).stdout)
        r = sh(demo, cwd=d)
        res.append('demo-bug=%d' % r.returncode)
        res.append(tests(W))
        for p in props or [ns['PROP']]:
            r = sh('SYMX_REPO=%s ./check.sh %s quick --no-evidence' % (W, p), cwd='/verif')
            res.append('check %s=%d' % (p, r.returncode))
            v = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', '  '))]
            res.append(' '.join(v[:2])[:200] if v else r.stdout[-300:])
    finally:
        sh('rm -rf %s %s.d %s.demo.py /tmp/demo.%d.sh' % (W, W, W, os.getpid()))
    print(ns['ID'], *res)


if __name__ == '__main__':
    for s in sys.argv[1:]:
        main(s)
