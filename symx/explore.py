"""Runs one harness case over all its paths."""
import json
import os
import random
import subprocess
import sys
import time
import traceback

import numpy as np

from . import core, harness as H
from .core import Unsupported, PathEnd, Budget
from .path import Path, Stats, frac_of
from .zz import z3


class Confirmed(BaseException):
    def __init__(self, rec):
        self.rec = rec


class Replayer(object):
    """the real package in its own process"""

    def __init__(self):
        self.p = None
        self.n = 0

    def start(self):
        env = dict(os.environ)
        self.p = subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-m', 'symx.replay', '--serve'],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def run(self, prop, name, case, inputs):
        self.n += 1
        if self.p is None or self.p.poll() is not None:
            self.start()
        msg = json.dumps(dict(property=prop, harness=name, case=case,
                              inputs=inputs)) + '\n'
        try:
            self.p.stdin.write(msg.encode())
            self.p.stdin.flush()
            import select
            r, _, _ = select.select([self.p.stdout], [], [], 120)
            if not r:
                self.p.kill()
                return dict(status='timeout')
            line = self.p.stdout.readline()
            return json.loads(line)
        except (BrokenPipeError, ValueError) as e:
            try:
                self.p.kill()
            except Exception:
                pass
            self.p = None
            return dict(status='crash', detail=str(e))

    def stop(self):
        if self.p is not None and self.p.poll() is None:
            self.p.kill()
            self.p.wait()


def _bad(res):
    return res['status'] in ('violation', 'exception')


class Job(object):
    def __init__(self, h, case, replayer, tier, seed):
        self.h, self.case, self.rp = h, case, replayer
        self.st = Stats()
        self.tier = tier
        o = h.opts
        self.max_s = o.get('max_s', 240 if tier == 'quick' else 1500)
        self.max_paths = o.get('max_paths', 6000 if tier == 'quick' else 60000)
        self.nval = o.get('validate', 3)
        self.rng = random.Random(seed)
        self.res = dict(harness=h.name, case=case, paths=0, infeasible=0,
                        sampled=[], unknown=[], incomplete=None, validated=0,
                        val_skipped=0, mismatch=[], unreproduced=[], reached=0,
                        samples=[], errors=[], maybe_infeasible=0, stubbed=0)

    # -- replay helpers
    def concrete(self, inputs):
        return self.rp.run(self.h.prop, self.h.name, self.case, inputs)

    def on_violation(self, hs, extra, label):
        p = hs.p
        last = None
        block = []
        for attempt in range(5):
            e = extra if not block else z3.And(extra, *block)
            want = None
            if attempt >= 2:
                want = {n: self.rng.randint(-12, 12) / 4. for n in p.order
                        if p.inputs[n][0] == 'real'}
            vals = p.nice_model(e, want=want)
            if vals is None:
                break
            res = self.concrete(vals)
            last = (vals, res)
            if _bad(res):
                raise Confirmed(dict(label=label, detail=res.get('detail'),
                                     status=res['status'], inputs=vals,
                                     harness=self.h.name, case=self.case))
            rl = [n for n in p.order if p.inputs[n][0] == 'real']
            if rl:
                n = rl[attempt % len(rl)]
                from fractions import Fraction
                v = z3.RealVal(Fraction(vals[n]))
                block.append(z3.Or(p.inputs[n][1] > v + core.rv(.1),
                                   p.inputs[n][1] < v - core.rv(.1)))
        self.res['unreproduced'].append(dict(
            label=label, inputs=last and last[0], got=last and last[1],
            stubbed=p.stubbed, uninterpreted=p.uninterpreted))

    def sample_path(self, p, reason):
        """the engine could not follow the code here: run the real code on
        models of the path so far"""
        n = 0
        for k in range(4):
            want = None
            if k:
                want = {n_: self.rng.randint(-12, 12) / 4. for n_ in p.order
                        if p.inputs[n_][0] == 'real'}
            vals = p.nice_model(None, want=want)
            if vals is None:
                if not n and p.query(z3.BoolVal(True))[0] == 'unsat':
                    # a path taken while the solver could not tell
                    self.res['infeasible'] += 1
                    self.res['paths'] -= 1
                    return
                break
            res = self.concrete(vals)
            n += 1
            if _bad(res):
                raise Confirmed(dict(label=reason, detail=res.get('detail'),
                                     status=res['status'], inputs=vals,
                                     harness=self.h.name, case=self.case))
        self.res['sampled'].append(dict(reason=reason, runs=n))

    def validate(self, p, hs):
        vals = p.nice_model(None)
        if vals is None:
            self.res['val_skipped'] += 1
            return
        res = self.concrete(vals)
        if res['status'] == 'assume':
            self.res['val_skipped'] += 1
            return
        if _bad(res):
            # the solver says this cannot fail: ask for another point of the
            # same path before believing it
            want = {n: self.rng.randint(-12, 12) / 4. for n in p.order
                    if p.inputs[n][0] == 'real'}
            vals2 = p.nice_model(None, want=want)
            res2 = self.concrete(vals2) if vals2 else res
            if _bad(res2):
                raise Confirmed(dict(label='replay of a path model',
                                     detail=res.get('detail'),
                                     status=res['status'], inputs=vals,
                                     harness=self.h.name, case=self.case))
            self.res['mismatch'].append(dict(inputs=vals, got=res))
            return
        self.res['validated'] += 1
        # compare observations
        if p.uninterpreted or p.stubbed:
            return
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(*p.pc)
        for n, v in vals.items():
            kind, c = p.inputs[n]
            if kind == 'real':
                s.add(c == core.rv(v))
            elif kind == 'int':
                s.add(c == v)
            else:
                s.add(c == z3.BoolVal(v))
        if s.check() != z3.sat:
            return
        m = s.model()
        obs = res.get('obs') or []
        if len(obs) != len(hs.obs):
            self.res['mismatch'].append(dict(inputs=vals, got='%d observations '
                                             'instead of %d' % (len(obs), len(hs.obs))))
            return
        for (l1, x), (l2, y) in zip(hs.obs, obs):
            pr = core.parts(x)
            if pr is None:
                xv = float(x)
            else:
                nan = pr[1]
                if nan is not False and nan is not True:
                    nan = z3.is_true(m.eval(nan, model_completion=True))
                xv = float('nan') if nan else \
                    float(frac_of(m.eval(pr[0], model_completion=True)))
            y = float('nan') if y is None else y
            if not (xv == y or (xv != xv and y != y) or
                    abs(xv - y) <= 1e-6 * (1 + abs(y))):
                self.res['mismatch'].append(dict(
                    inputs=vals, got='%s: encoding %r, real code %r' % (l1, xv, y)))
                return
        if len(self.res['samples']) < 3:
            self.res['samples'].append(dict(
                inputs={k: vals[k] for k in list(vals)[:12]},
                observed=[[l, v] for l, v in obs[:6]]))

    # -- exploration
    def run(self):
        t0 = time.time()
        deadline = t0 + self.max_s
        work = [[]]
        nv = 0
        try:
            while work:
                if time.time() > deadline or self.res['paths'] >= self.max_paths:
                    self.res['incomplete'] = '%d prefixes left' % len(work)
                    break
                prefix = work.pop()
                p = Path(prefix, self.st, deadline)
                core.set_current(p)
                hs = H.Sym(p, self.on_violation)
                err = None
                try:
                    self.h.fn(hs, **self.case)
                    ended = 'done'
                except PathEnd:
                    ended = 'infeasible'
                except Budget:
                    ended = 'budget'
                except Unsupported as e:
                    repo = ['%s:%d' % (os.path.basename(f.filename), f.lineno)
                            for f in traceback.extract_tb(e.__traceback__)]
                    ended, err = 'unsup', 'unsupported: %s (%s)' % (e, ' > '.join(repo[-4:]))
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    loc = '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
                    repo = [f for f in tb if '/IMTreatment/' in f.filename]
                    if repo:
                        loc = '%s:%s > ' % (os.path.basename(repo[-1].filename),
                                            repo[-1].lineno) + loc
                    ended, err = 'exc', '%s: %s (%s)' % (type(e).__name__, e, loc)
                finally:
                    core.set_current(None)
                if p.unsup and ended in ('done', 'exc'):
                    ended, err = 'unsup', 'unsupported: ' + p.unsup[0] + \
                        (' / ' + err if err else '')
                work.extend(p.alts)
                if ended == 'budget':
                    self.res['incomplete'] = 'budget, %d prefixes left' % len(work)
                    break
                if ended == 'infeasible':
                    self.res['infeasible'] += 1
                    continue
                self.res['paths'] += 1
                self.st.paths += 1
                self.res['reached'] += hs.reached
                if p.maybe_infeasible:
                    self.res['maybe_infeasible'] += 1
                if p.stubbed:
                    self.res['stubbed'] += 1
                self.res['unknown'].extend(p.notes[:3])
                if ended in ('unsup', 'exc'):
                    self.sample_path(p, err)
                    continue
                if nv < self.nval or (nv < 12 and self.rng.random() < .02):
                    nv += 1
                    self.validate(p, hs)
        except Confirmed as c:
            self.res['violation'] = c.rec
        self.res['stats'] = self.st.as_dict()
        self.res['wall_s'] = time.time() - t0
        for k in ('sampled', 'unknown', 'mismatch', 'unreproduced'):
            self.res['n_' + k] = len(self.res[k])
            self.res[k] = self.res[k][:5]
        return self.res
