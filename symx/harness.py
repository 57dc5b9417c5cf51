"""What a harness is written against.  The same harness function runs in two
modes: Sym (values are solver terms, checks are solver queries) and Conc (the
inputs are numbers, the package is the real one, checks are comparisons)."""
import importlib
import itertools
import math

import numpy as np

REG = {}          # property -> list of Harness

TOL = 1e-6        # symbolic equality tolerance (reals against rounded constants)
CTOL = 2e-9       # concrete (relative) tolerance at replay


class Harness(object):
    def __init__(self, prop, fn, cases, thorough, opts):
        self.prop, self.fn = prop, fn
        self.name = fn.__name__
        self.cases, self.thorough = cases, thorough
        self.opts = opts


def grid(**kw):
    """list of cases, the cartesian product"""
    ks = list(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*[kw[k] for k in ks])]


def harness(prop, cases=None, thorough=None, **opts):
    def d(fn):
        c = cases if cases is not None else [{}]
        t = list(thorough) if thorough is not None else []
        REG.setdefault(prop, []).append(Harness(prop, fn, c, t, opts))
        return fn
    return d


class AssumeFailed(Exception):
    pass


class Violation(Exception):
    pass


class Base(object):
    def mod(self, name):
        return importlib.import_module('IMTreatment.' + name)

    @property
    def imt(self):
        return importlib.import_module('IMTreatment')

    def axis(self, name, n, lo=-4, hi=4, dmin=.25, dmax=3):
        """strictly increasing coordinates"""
        x = [self.real(name + '0', lo, hi)]
        for i in range(1, n):
            x.append(x[-1] + self.real('%sd%d' % (name, i), dmin, dmax))
        return self.np.array(x, dtype=float)

    def uaxis(self, name, n, lo=-4, hi=4, dmin=.25, dmax=3):
        """evenly spaced increasing coordinates"""
        x0 = self.real(name + '0', lo, hi)
        d = self.real(name + 'd', dmin, dmax)
        return self.np.array([x0 + d * i for i in range(n)], dtype=float)

    def reals(self, name, shape, lo=-8, hi=8):
        if isinstance(shape, int):
            shape = (shape,)
        o = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            o[idx] = self.real(name + '_' + '_'.join(map(str, idx)), lo, hi)
        return self.np.array(o.tolist(), dtype=float).reshape(shape)

    def bools(self, name, shape, free=None):
        """free: the indices that may be True (default all)"""
        if isinstance(shape, int):
            shape = (shape,)
        o = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            o[idx] = self.boolean(name + '_' + '_'.join(map(str, idx))) \
                if free is None or idx in free or (len(idx) == 1 and idx[0] in free) \
                else False
        return self.np.array(o.tolist(), dtype=bool).reshape(shape)

    def pick(self, name, options):
        options = list(options)
        return options[self.integer(name, 0, len(options) - 1)]

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.check(True, label)
            return True
        except Exception as e:
            self._reject_engine(e)
            self.fail(label + ': raised %s instead' % type(e).__name__)
            return False
        self.fail(label + ': no exception')

    def _reject_engine(self, e):
        pass

    def fail(self, label):
        self.check(False, label)

    def eqs(self, pairs, label):
        for i, (a, b) in enumerate(pairs):
            self.eq(a, b, '%s[%s]' % (label, i))

    def same_shape(self, a, b, label):
        self.check(tuple(np.shape(a)) == tuple(np.shape(b)),
                   '%s: shape %s instead of %s' % (label, np.shape(a), np.shape(b)))


# --------------------------------------------------------------------- concrete
class Conc(Base):
    mode = 'conc'
    np = np

    def __init__(self, inputs):
        self.inputs = inputs
        self.used = {}
        self.obs = []
        self.nchecks = 0
        self.maxerr = 0.

    def _get(self, name, default):
        v = self.inputs.get(name, default)
        self.used[name] = v
        return v

    def real(self, name, lo=-8, hi=8):
        return float(self._get(name, min(max(0., lo), hi)))

    def boolean(self, name):
        return bool(self._get(name, False))

    def integer(self, name, lo, hi):
        return int(self._get(name, lo))

    def assume(self, c):
        if not bool(np.all(c)):
            raise AssumeFailed()

    def check(self, c, label):
        self.nchecks += 1
        if not bool(np.all(c)):
            raise Violation(label)

    def close(self, a, b, tol=None):
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        t = CTOL * (1. + abs(a) + abs(b))
        if tol is not None:
            t = max(t, tol * .5)
        return abs(a - b) <= t

    def eq(self, got, want, label, tol=None):
        self.nchecks += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.dtype == object or w.dtype == object:
            g = np.asarray(np.array(got, dtype=float))
            w = np.asarray(np.array(want, dtype=float))
        if g.shape != w.shape:
            raise Violation('%s: shape %s instead of %s' % (label, g.shape, w.shape))
        self.observe(label, g)
        for idx in np.ndindex(*g.shape):
            if not self.close(g[idx], w[idx], tol):
                raise Violation('%s: at %s got %r, expected %r'
                                % (label, list(idx), g[idx], w[idx]))

    def observe(self, label, v):
        if len(self.obs) < 400:
            for x in np.asarray(v).ravel()[:60]:
                self.obs.append((label, float(x)))

    # logic
    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def isnan(self, a):
        return bool(a != a)

    def arr(self, a):
        return np.asarray(a)

    def lt(self, a, b):
        """strictly less, with room for rounding"""
        return bool(a < b + 1e-9 * (1 + abs(b)))

    le = lt


# --------------------------------------------------------------------- symbolic
class Sym(Base):
    mode = 'sym'

    def __init__(self, path, on_violation):
        from . import core, array, npf
        from .zz import z3
        self.p = path
        self.core, self.A, self.z3 = core, array, z3
        self.np = npf.NP
        self.on_violation = on_violation
        self.obs = []
        self.reached = 0

    def _reject_engine(self, e):
        if isinstance(e, self.core.Unsupported):
            raise e

    def _decl(self, name, kind, c):
        p = self.p
        if name in p.inputs:
            return p.inputs[name][1]
        p.inputs[name] = (kind, c)
        p.order.append(name)
        return c

    def real(self, name, lo=-8, hi=8):
        new = name not in self.p.inputs
        c = self._decl(name, 'real', self.z3.Real(name))
        if new:
            self.p.add(self.z3.And(c >= self.core.rv(lo), c <= self.core.rv(hi)))
        return self.core.SymNum(c)

    def boolean(self, name):
        return self.core.SymBool(self._decl(name, 'bool', self.z3.Bool(name)))

    def integer(self, name, lo, hi):
        new = name not in self.p.inputs
        c = self._decl(name, 'int', self.z3.Int(name))
        if new:
            self.p.add(self.z3.And(c >= lo, c <= hi))
        return self.p.concretize_int(c)

    def _z(self, c):
        A, core = self.A, self.core
        if isinstance(c, np.ndarray):
            return core.b_and(*[core.as_zbool(x) for x in A.objs(c).flat])
        if isinstance(c, (list, tuple)):
            return core.b_and(*[self._z(x) for x in c])
        return core.as_zbool(c)

    def assume(self, c):
        self.p.assume(self._z(c))

    def check(self, c, label):
        self._decide(self._z(c), None, label)

    def _decide(self, ok, strong, label):
        """ok: condition that must hold; strong: weaker condition whose failure
        is a clearer counterexample"""
        p, z3 = self.p, self.z3
        self.reached += 1
        p.st.checks += 1
        if ok is True:
            p.st.by_simplify += 1
            return
        neg = z3.BoolVal(True) if ok is False else z3.simplify(z3.Not(ok))
        if z3.is_false(neg):
            p.st.by_simplify += 1
            return
        r, m = p.query(neg)
        if r == 'unsat':
            return
        if r == 'unknown':
            p.notes.append('unknown: ' + label)
            return
        extra = neg
        if strong is not None:
            ns = z3.BoolVal(True) if strong is False else z3.Not(strong)
            r2, _ = p.query(ns)
            if r2 == 'sat':
                extra = ns
        self.on_violation(self, extra, label)

    def close(self, a, b, tol=None):
        return self.core.mkbool(self._close(a, b, tol or TOL))

    def _close(self, a, b, tol):
        core, z3 = self.core, self.z3
        if not core.is_sym(a) and not core.is_sym(b):
            a, b = float(a), float(b)
            if a != a or b != b:
                return a != a and b != b
            if math.isinf(a) or math.isinf(b):
                return a == b
            return abs(a - b) <= tol * (1 + abs(b))
        pa, pb = core.parts(a), core.parts(b)
        if pa is None or pb is None:
            return False
        (va, na), (vb, nb) = pa, pb
        if va.eq(vb):
            num = True
        else:
            d = z3.simplify(va - vb, som=True)
            if z3.is_rational_value(d):
                num = abs(d.as_fraction()) <= tol
            else:
                t = core.rv(tol)
                num = z3.And(d <= t, d >= -t)
        if na is False and nb is False:
            return num
        both = core.b_and(na, nb)
        none = core.b_and(core.b_not(na), core.b_not(nb))
        return core.b_or(both, core.b_and(none, num))

    def eq(self, got, want, label, tol=None):
        A, core = self.A, self.core
        g = A.asarray(got)
        w = A.asarray(want)
        if g.shape != w.shape:
            self.check(False, '%s: shape %s instead of %s' % (label, g.shape, w.shape))
            return
        self.observe(label, g)
        go, wo = A.objs(g).ravel(), A.objs(w).ravel()
        t = tol or TOL
        conds, strong = [], []
        for a, b in zip(go, wo):
            c = self._close(a, b, t)
            if c is True:
                continue
            conds.append(c)
            strong.append(self._close(a, b, max(t * 10, .05)))
        ok = core.b_and(*conds)
        self._decide(ok, core.b_and(*strong), label)

    def observe(self, label, v):
        if len(self.obs) < 400:
            for x in list(self.A.objs(self.A.asarray(v)).ravel())[:60]:
                self.obs.append((label, x))

    def And(self, *a):
        return self.core.mkbool(self.core.b_and(*[self._z(x) for x in a]))

    def Or(self, *a):
        return self.core.mkbool(self.core.b_or(*[self._z(x) for x in a]))

    def Not(self, a):
        return self.core.mkbool(self.core.b_not(self._z(a)))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        a, b = self._z(a), self._z(b)
        return self.core.mkbool(self.core.b_ite(a, b, self.core.b_not(b)))

    def ite(self, c, a, b):
        return self.core.ite(self._z(c), a, b)

    def isnan(self, a):
        return self.core.f_isnan(a)

    def arr(self, a):
        return self.A.asarray(a)

    def lt(self, a, b):
        """strictly less, up to the tolerance"""
        return a < b + TOL

    le = lt
