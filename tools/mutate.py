#!/usr/bin/env python3
"""Mutation campaign: small changes of the functions that the checks encode, in
scratch copies of /repo; prints those no check reports although the tests pass.

usage: mutate.py OUT.jsonl [--files REGEX] [--per-fn N] [--seed S] [--par P] [--max-checks K]
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {'axe_x': 'axe_y', 'unit_x': 'unit_y', 'comp_x': 'comp_y', 'dx': 'dy', 'vx': 'vy', 'x_min': 'x_max', 'y_min': 'y_max',
        'logical_and': 'logical_or', 'max': 'min', 'nanmax': 'nanmin', 'floor': 'ceil', 'intervx': 'intervy', 'Vx': 'Vy',
        'ind_x': 'ind_y', 'scalex': 'scaley', 'cos': 'sin', 'argmin': 'argmax'}
SWAP.update({v: k for k, v in list(SWAP.items())})


def span(lines, n):
    """offsets of a node in the source (ascii columns)"""
    return lines[n.lineno - 1] + n.col_offset, lines[n.end_lineno - 1] + n.end_col_offset


def mutants(src, fn, lines):
    out = []

    def rep(a, b, new, what, line):
        out.append((a, b, new, what, line))
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(id(m))
    for n in ast.walk(fn):
        if id(n) in skip or not hasattr(n, 'lineno'):
            continue
        a, b = span(lines, n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = span(lines, n.left)[1], span(lines, n.comparators[0])[0]
            new = {'Lt': '<=', 'LtE': '<', 'Gt': '>=', 'GtE': '>', 'Eq': '!=', 'NotEq': '=='}.get(type(n.ops[0]).__name__)
            if new:
                rep(l, r, ' %s ' % new, 'compare', n.lineno)
        elif isinstance(n, ast.BinOp):
            l, r = span(lines, n.left)[1], span(lines, n.right)[0]
            op = src[l:r]
            new = {'Add': ('+', '-'), 'Sub': ('-', '+'), 'Mult': ('*', '/'), 'Div': ('/', '*')}.get(type(n.op).__name__)
            if new and op.count(new[0]) == 1 and not isinstance(n.left, ast.Constant):
                rep(l, r, op.replace(*new), 'arith', n.lineno)
        elif isinstance(n, ast.AugAssign):
            l, r = span(lines, n.target)[1], span(lines, n.value)[0]
            op = src[l:r]
            new = {'Add': ('+', '-'), 'Sub': ('-', '+'), 'Mult': ('*', '/'), 'Div': ('/', '*')}.get(type(n.op).__name__)
            if new and op.count(new[0]) == 1:
                rep(l, r, op.replace(*new), 'aug', n.lineno)
        elif isinstance(n, ast.BoolOp):
            l, r = span(lines, n.values[0])[1], span(lines, n.values[1])[0]
            op = src[l:r]
            q = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            if op.count(q[0]) == 1:
                rep(l, r, op.replace(*q), 'bool', n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)) and not isinstance(n.operand, ast.Constant):
            rep(a, span(lines, n.operand)[0], '', 'unary', n.lineno)
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float) and not isinstance(n.value, bool):
            new = {0: '1', 1: '2', 2: '1'}.get(n.value)
            if new:
                rep(a, b, new + ('.' if isinstance(n.value, float) else ''), 'const', n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            rep(a, b, str(not n.value), 'const', n.lineno)
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
            rep(a, b, SWAP[n.id], 'swap', n.lineno)
        elif isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
            rep(b - len(n.attr), b, SWAP[n.attr], 'swap', n.lineno)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
            rep(a, b, src[a:span(lines, n.func.value)[1]], 'nocopy', n.lineno)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and n is not fn.body[0]:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                continue
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if 'warn' in src[a:b] or 'print' in src[a:b]:
                continue
            rep(a, b, 'pass', 'delete', n.lineno)
    return out


def functions(tree):
    def walk(node, pre):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.ClassDef):
                yield from walk(n, pre + n.name + '.')
            elif isinstance(n, ast.FunctionDef):
                yield pre + n.name, n
            elif isinstance(n, (ast.If, ast.Try)):
                yield from walk(n, pre)
    return list(walk(tree, ''))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default='.')
    ap.add_argument('--fns', default='.')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--per-fn', type=int, default=2)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--par', type=int, default=4)
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--max-checks', type=int, default=6)
    ap.add_argument('--limit', type=int, default=10 ** 6)
    a = ap.parse_args()
    fns, wall = {}, {}
    for f in sorted(os.listdir(HERE + '/evidence')):
        if re.match(r'C\d\d\.json$', f):
            e = json.load(open(HERE + '/evidence/' + f))
            wall[f[:3]] = e['wall_s']
            for q in e['coverage']['functions_encoded']:
                fns.setdefault(q.split('.<locals>')[0], set()).add(f[:3])
    rnd = random.Random(a.seed)
    todo = []
    for path in sorted(set(k.split(':')[0] for k in fns)):
        if not re.search(a.files, path):
            continue
        src = open('%s/IMTreatment/%s' % (a.repo, path)).read()
        lines, o = [], 0
        for l in src.split('\n'):
            lines.append(o)
            o += len(l) + 1
        if any(ord(c) > 127 for c in src):
            # columns are in bytes: lines with other characters are left alone
            pass
        for name, fn in functions(ast.parse(src)):
            cs = fns.get('%s:%s' % (path, name))
            if not cs or not re.search(a.fns, name):
                continue
            ms = [m for m in mutants(src, fn, lines) if src[m[0]:m[1]] and src[lines[m[4] - 1]:m[0]].isascii()]
            rnd.shuffle(ms)
            for m in ms[:a.per_fn]:
                todo.append((path, name, sorted(cs, key=lambda c: wall[c])[:a.max_checks], src, m))
    rnd.shuffle(todo)
    todo = todo[:a.limit]
    print(len(todo), 'mutants', flush=True)
    import threading
    lock = threading.Lock()

    def one(t):
        path, name, cs, src, (x, y, new, what, line) = t
        mut = src[:x] + new + src[y:]
        try:
            compile(mut, path, 'exec')
        except SyntaxError:
            return
        d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
        res, by = 'survived', None
        try:
            shutil.copytree(a.repo + '/IMTreatment', d + '/IMTreatment', ignore=shutil.ignore_patterns('__pycache__'))
            open('%s/IMTreatment/%s' % (d, path), 'w').write(mut)
            env = dict(os.environ, SYMX_REPO=d, PYTHONDONTWRITEBYTECODE='1')
            for c in cs:
                try:
                    r = subprocess.run([HERE + '/check.sh', c, 'quick', '--no-evidence', '--jobs', str(a.jobs)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
                except subprocess.TimeoutExpired:
                    by = (by or '') + ' %s timeout' % c
                    continue
                if r.returncode == 1:
                    res, by = 'killed', c
                    break
                if r.returncode != 0:
                    by = (by or '') + ' %s exit %s %s' % (c, r.returncode, r.stdout[-200:].decode(errors='replace'))
            if res == 'survived':
                shutil.copytree(a.repo + '/tests', d + '/w/tests')
                shutil.copy(a.repo + '/setup.cfg', d + '/w/')
                r = subprocess.run('. /opt/vp/env.sh; cd %s/w; PYTHONPATH=%s timeout 200 $PY -m pytest -q -p no:cacheprovider --continue-on-collection-errors -W ignore -o junit_family=xunit2 --junitxml=%s/j.xml tests >/dev/null 2>&1; python3 /opt/vp/results.py %s/o.json junit:%s/j.xml' % (d, d, d, d, d), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                try:
                    b, o = json.load(open('/opt/vp/BASELINE.json')), json.load(open(d + '/o.json'))
                    miss = set(b['stable']) - set(o[[k for k in o if 'pass' in k][0]])
                    if miss:
                        res = 'tests'
                except Exception as e:
                    res = 'tests?'
        finally:
            shutil.rmtree(d, ignore_errors=True)
        with lock:
            sl = src.split('\n')
            open(a.out, 'a').write(json.dumps(dict(res=res, by=by, path=path, fn=name, line=line, what=what, old=src[x:y], new=new, text=sl[line - 1].strip(), checks=cs)) + '\n')
    with ThreadPoolExecutor(a.par) as ex:
        for f in [ex.submit(one, t) for t in todo]:
            f.result()


main()
