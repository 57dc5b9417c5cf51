"""python -m symx.run PROPERTY [--tier quick|thorough] [--only harness]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
os.environ.setdefault('PYTHONHASHSEED', '0')

ENC = set()


def _trace_start():
    """which functions of the package the symbolic runs entered"""
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, 'symx')
    except ValueError:
        return
    root = os.path.join(REPO, 'IMTreatment') + os.sep

    def start(code, off):
        f = code.co_filename
        if f.startswith(root):
            ENC.add('%s:%s' % (f[len(root):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def worker(jobs, q, lock, nxt, prop, tier, seed):
    from . import harness as H, explore
    sys.setrecursionlimit(20000)
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    rp = explore.Replayer()
    _trace_start()
    while True:
        with lock:
            i = nxt.value
            nxt.value += 1
        if i >= len(jobs):
            break
        hname, case = jobs[i]
        h = [x for x in H.REG[prop] if x.name == hname][0]
        try:
            res = explore.Job(h, case, rp, tier, seed * 1000 + i).run()
        except BaseException as e:
            import traceback
            res = dict(harness=hname, case=case, crash='%s: %s\n%s' % (
                type(e).__name__, e, traceback.format_exc()[-1500:]))
        res['functions'] = sorted(ENC)
        ENC.clear()
        q.put((i, res))
    rp.stop()
    q.put((None, None))


def load_known():
    f = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(f):
        return []
    return json.load(open(f)).get('findings', [])


def known_match(prop, v, known):
    for k in known:
        if k['property'] != prop or k['harness'] != v['harness']:
            continue
        if k.get('label') and not (v['label'] or '').startswith(k['label']) \
                and not (v.get('detail') or '').startswith(k['label']):
            continue
        if k.get('case') is not None and \
                any(v['case'].get(a) != b for a, b in k['case'].items()):
            continue
        return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.path.insert(0, HERE)
    from . import loader
    loader.install()
    sys.path.insert(0, REPO)
    from . import harness as H
    try:
        mod = importlib.import_module('props.' + a.prop)
    except Exception as e:
        raise
    jobs = []
    for h in H.REG[a.prop]:
        if a.only and h.name not in a.only.split(','):
            continue
        cs = list(h.cases) + (list(h.thorough) if a.tier == 'thorough' else [])
        for c in cs:
            jobs.append((h.name, json.loads(json.dumps(c)), h.opts.get('weight', 1)))
    jobs.sort(key=lambda j: -j[2])
    jobs = [(n, c) for n, c, _ in jobs]
    # imported before the fork, so that workers share it
    importlib.import_module('IMTreatment')
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    lock = ctx.Lock()
    nxt = ctx.Value('i', 0)
    nproc = max(1, min(a.jobs, len(jobs)))
    ps = [ctx.Process(target=worker, args=(jobs, q, lock, nxt, a.prop, a.tier, seed))
          for _ in range(nproc)]
    for p in ps:
        p.start()
    results = {}
    alive = nproc
    limit = t0 + (840 if a.tier == 'quick' else 3 * 3600)
    stop = None
    import queue as _q
    while alive and time.time() < limit:
        try:
            i, r = q.get(timeout=2)
        except _q.Empty:
            if not any(p.is_alive() for p in ps):
                break
            continue
        if i is None:
            alive -= 1
            continue
        results[i] = r
        if a.verbose:
            s = r.get('stats', {})
            print('%-28s %-60s paths=%s q=%s %.1fs/%.1fs val=%s%s%s%s%s%s%s' % (
                r['harness'], json.dumps(r['case'])[:60], r.get('paths'),
                s.get('queries'), s.get('solver_s', 0), r.get('wall_s', 0),
                r.get('validated'),
                ' VIOL %s' % r['violation'] if r.get('violation') else '',
                ' SAMPLED %d %s' % (r['n_sampled'], r['sampled'][:2]) if r.get('sampled') else '',
                ' UNKNOWN %s' % r['unknown'][:2] if r.get('unknown') else '',
                ' MISMATCH %s' % r['mismatch'][:2] if r.get('mismatch') else '',
                ' UNREPRODUCED %s' % r['unreproduced'][:1] if r.get('unreproduced') else '',
                (' INCOMPLETE %s' % r['incomplete'] if r.get('incomplete') else '') +
                (' CRASH %s' % r['crash'] if r.get('crash') else '')))
            sys.stdout.flush()
        if r.get('violation') and not known_match(a.prop, r['violation'], load_known()) \
                and not a.verbose:
            break
    for p in ps:
        if p.is_alive():
            os.system('pkill -9 -P %d >/dev/null 2>&1' % p.pid)
            p.terminate()
    for p in ps:
        p.join(5)
    code = report(a, mod, jobs, results, t0, seed)
    sys.stdout.flush()
    os._exit(code)


def report(a, mod, jobs, results, t0, seed):
    known = load_known()
    viol, kn, err = [], [], []
    tot = dict(paths=0, forks=0, queries=0, solver_s=0., checks=0, by_simplify=0,
               sat=0, unsat=0, unknown=0, validated=0, reached=0)
    funcs = set()
    partial = []
    samples = []
    vac = []
    per = {}
    for i, r in sorted(results.items()):
        s = r.get('stats')
        if r.get('crash'):
            err.append('%s %s: %s' % (r['harness'], r['case'], r['crash']))
            continue
        for k in ('forks', 'queries', 'solver_s', 'checks', 'by_simplify', 'sat',
                  'unsat', 'unknown'):
            tot[k] += s[k]
        tot['paths'] += r['paths']
        tot['validated'] += r['validated']
        tot['reached'] += r['reached']
        funcs.update(r['functions'])
        d = per.setdefault(r['harness'], dict(cases=0, paths=0, queries=0,
                                              solver_s=0., wall_s=0.))
        d['cases'] += 1
        d['paths'] += r['paths']
        d['queries'] += s['queries']
        d['solver_s'] = round(d['solver_s'] + s['solver_s'], 3)
        d['wall_s'] = round(d['wall_s'] + r['wall_s'], 2)
        if r['samples'] and len(samples) < 6:
            samples.append(dict(harness=r['harness'], case=r['case'],
                                trace=r['samples'][0]))
        if r.get('violation'):
            v = r['violation']
            k = known_match(a.prop, v, known)
            (kn if k else viol).append((v, k))
        for u in r['unreproduced']:
            partial.append('counterexample of the encoding that the real code does not '
                           'show: %s %s: %s %s' % (
                r['harness'], r['case'], u['label'], str(u['got'])[:200]))
        if r['reached'] == 0 and not r.get('violation') and not r['sampled']:
            vac.append('%s %s' % (r['harness'], r['case']))
        for kk in ('sampled', 'unknown', 'mismatch'):
            if r[kk]:
                partial.append('%s: %s %s: %d (%s)' % (
                    kk, r['harness'], r['case'], r['n_' + kk],
                    str(r[kk][0])[:300]))
        if r['incomplete']:
            partial.append('incomplete: %s %s: %s' % (r['harness'], r['case'],
                                                      r['incomplete']))
    if len(results) < len(jobs) and not viol:
        partial.append('%d of %d cases not finished' % (len(jobs) - len(results),
                                                        len(jobs)))
    if vac:
        err.append('no assertion reached: %s' % vac[:3])
    rdir = os.path.join(HERE, 'evidence', 'replay')
    code = 0
    nv = []
    for n, (v, _) in enumerate(viol):
        os.makedirs(rdir, exist_ok=True)
        f = os.path.join(rdir, '%s-%s-%d.json' % (a.prop, v['harness'], n))
        with open(f, 'w') as fh:
            json.dump(dict(property=a.prop, harness=v['harness'], case=v['case'],
                           inputs=v['inputs'], label=v['label'],
                           detail=v['detail'],
                           how='cd /verif && ./replay.sh ' + f), fh, indent=1)
        print('VIOLATION property=%s replay=%s' % (a.prop, f))
        print('  %s %s: %s | %s' % (v['harness'], json.dumps(v['case']), v['label'],
                                   v['detail']))
        nv.append(dict(property=a.prop, replay=f, what='%s: %s' % (v['label'], v['detail'])))
        code = 1
    for v, k in kn:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    if code == 0 and err:
        for e in err[:10]:
            print('ERROR %s' % e)
        code = 2
    for p in partial[:10]:
        print('PARTIAL %s' % p)
    wall = time.time() - t0
    doc = (mod.__doc__ or '').strip()
    ev = dict(
        property=a.prop, tier=a.tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot['paths'], transitions=tot['forks'],
            meaning='states: execution paths of the harnesses through the code, '
            'each standing for all inputs that follow it; transitions: branches '
            'with both outcomes feasible',
            traces_validated_against_impl=tot['validated'],
            bounds=getattr(mod, 'BOUNDS', doc),
            functions_encoded=sorted(funcs),
            cases=len(results), cases_planned=len(jobs),
            solver_queries=tot['queries'], queries_sat=tot['sat'],
            queries_unsat=tot['unsat'], queries_unknown=tot['unknown'],
            assertions_decided=tot['checks'],
            assertions_closed_by_term_rewriting=tot['by_simplify'],
            solver_time_s=round(tot['solver_s'], 3),
            per_harness=per, samples=samples,
            exhaustive_within_bounds=not partial and not err and not viol,
            not_covered=partial),
        assumptions=getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=nv)
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
    print('%s %s: %d cases, %d paths, %d assertions, %d queries, solver %.1f s, '
          '%d paths replayed on the real code, %d functions, %.1f s -> %s' % (
              a.prop, a.tier, len(results), tot['paths'], tot['checks'], tot['queries'],
              tot['solver_s'], tot['validated'], len(funcs), wall,
              {0: 'held', 1: 'VIOLATED', 2: 'ERROR'}[code]))
    return code


COMMON_ASSUMPTIONS = [
    'Floating-point numbers are modelled as reals with a NaN flag (rounding, '
    'overflow and signed zeros are outside the claim); equalities are decided '
    'up to 1e-6.',
    'numpy and scipy are trusted: their functions are replaced by models in '
    '/verif/symx (checked by replaying path models on the real libraries).',
]


if __name__ == '__main__':
    main()
