"""Imports IMTreatment from the working tree with numpy/scipy replaced by the
engine's facades and float()/int() calls made symbolic-aware."""
import ast
import builtins
import importlib
import importlib.machinery
import math
import os
import sys
import types

import numpy as np

from . import core, array as A, npf, sp
from .core import is_sym, SymNum, SymInt, SymBool, to_int

REPO = os.environ.get('SYMX_REPO', '/repo')
ENCODED = set()        # (file, function) executed symbolically, see trace


def sx_float(*a):
    if a:
        x = a[0]
        if isinstance(x, A.SymArray) and x.size == 1:
            x = x.view(np.ndarray).flat[0]
        if is_sym(x):
            return A.cast_elem(x, 'f')
        return float(x)
    return 0.


def sx_int(*a, **k):
    if a:
        x = a[0]
        if isinstance(x, A.SymArray) and x.size == 1:
            x = x.view(np.ndarray).flat[0]
        if is_sym(x) and len(a) == 1:
            return to_int(x)
    return int(*a, **k)


def sx_bool(*a):
    return bool(*a)


class Rewrite(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        name = None
        if isinstance(f, ast.Name) and f.id in ('float', 'int'):
            name = f.id
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) \
                and f.value.id in ('np', 'numpy') \
                and f.attr in ('float', 'int', 'float64', 'int64', 'float_',
                               'int_', 'double', 'intp'):
            name = 'float' if f.attr[0] in 'fd' else 'int'
        if name:
            node.func = ast.copy_location(
                ast.Name(id='__sx_%s__' % name, ctx=ast.Load()), f)
        return node


class MathFacade(types.ModuleType):
    def __getattr__(self, n):
        r = getattr(math, n)
        u = {'fabs': 'absolute', 'atan': 'arctan', 'acos': 'arccos',
             'asin': 'arcsin', 'atan2': 'arctan2', 'pow': 'power'}.get(n, n)
        uf = getattr(np, u, None)
        if not callable(r) or not isinstance(uf, np.ufunc):
            return r

        def f(*a):
            if any(is_sym(x) for x in a):
                res = A.array_ufunc(uf, '__call__', a, {})
                if n in ('floor', 'ceil', 'trunc'):
                    return to_int(res)
                return res
            return r(*a)
        return f


MATH = MathFacade('math')


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    m = builtins.__import__(name, globals, locals, fromlist, level)
    if level:
        return m
    top = name.split('.')[0]
    if top == 'numpy':
        if name == 'numpy':
            return npf.NP
        if fromlist:
            x = npf.NP
            for p in name.split('.')[1:]:
                x = getattr(x, p)
            return x
        return npf.NP
    if top == 'scipy':
        return sp.facade(m)
    if name == 'math':
        return MATH
    return m


BUILTINS = dict(builtins.__dict__)
BUILTINS['__import__'] = _import


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = Rewrite().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        d = module.__dict__
        d['__builtins__'] = BUILTINS
        d['__sx_float__'] = sx_float
        d['__sx_int__'] = sx_int
        exec(self.get_code(module.__name__), d)


class Finder(object):
    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name.split('.')[0] != 'IMTreatment':
            return None
        if path is None:
            path = [REPO]
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or spec.origin is None:
            return spec
        if not spec.origin.endswith('.py'):
            return spec
        return importlib.util.spec_from_file_location(
            name, spec.origin, loader=Loader(name, spec.origin),
            submodule_search_locations=spec.submodule_search_locations)


def install():
    import importlib.util                                        # noqa
    assert 'IMTreatment' not in sys.modules
    sys.meta_path.insert(0, Finder)
