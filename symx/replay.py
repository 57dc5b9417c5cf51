"""Runs a harness on given numbers against the real, unmodified package.

  python -m symx.replay FILE.json     exit 1 when the property is violated
"""
import contextlib
import importlib
import io
import json
import os
import sys
import traceback
import warnings

warnings.simplefilter('ignore')
REPO = os.environ.get('SYMX_REPO', '/repo')
sys.path.insert(0, REPO)


def run_one(job):
    import numpy as np
    from . import harness as H
    importlib.import_module('props.' + job['property'])
    hs = [h for h in H.REG[job['property']] if h.name == job['harness']]
    if not hs:
        return dict(status='error', detail='no such harness')
    c = H.Conc(job['inputs'])
    np.seterr(all='ignore')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            hs[0].fn(c, **job['case'])
        return dict(status='ok', nchecks=c.nchecks,
                    obs=[(l, None if v != v else v) for l, v in c.obs])
    except H.AssumeFailed:
        return dict(status='assume')
    except H.Violation as e:
        return dict(status='violation', detail=str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return dict(status='exception',
                    detail='%s: %s at %s' % (type(e).__name__, e,
                                             ' < '.join('%s:%s' % (os.path.basename(f.filename), f.lineno)
                                                        for f in tb[::-1][:4])))


def serve():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        r = run_one(json.loads(line))
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    if sys.argv[1] == '--serve':
        serve()
    else:
        job = json.load(open(sys.argv[1]))
        r = run_one(job)
        print(json.dumps(r, indent=1)[:3000])
        sys.exit(1 if r['status'] in ('violation', 'exception') else 0)
