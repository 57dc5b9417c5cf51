"""Path exploration: one Path per run of a harness, decisions replayed from a
prefix, the solver asked at every branch on a symbolic value."""
import time
from fractions import Fraction

import numpy as np

from . import core
from .core import PathEnd, Budget, Unsupported, rv
from .zz import z3


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.
        self.sat = self.unsat = self.unknown = 0
        self.forks = 0
        self.paths = 0
        self.by_simplify = 0
        self.checks = 0

    def as_dict(self):
        return dict(self.__dict__)


def frac_of(val):
    if z3.is_int_value(val):
        return Fraction(val.as_long())
    if z3.is_rational_value(val):
        return Fraction(val.numerator_as_long(), val.denominator_as_long())
    if z3.is_algebraic_value(val):
        ap = val.approx(20)
        return Fraction(ap.numerator_as_long(), ap.denominator_as_long())
    raise Unsupported('model value %s' % val)


_NLSAT = None


class Path(object):
    def __init__(self, prefix, stats, deadline, timeout_ms=15000):
        self.prefix = prefix
        self.pos = 0
        self.dec = []               # decisions taken
        self.alts = []              # prefixes still to explore
        self.st = stats
        self.deadline = deadline
        self.tmo = timeout_ms
        self.solver = z3.Solver()
        self.solver.set('timeout', min(timeout_ms, 8000))
        self.pc = []
        self.model = None
        self.known = {}
        self.keep = []
        self.inputs = {}            # name -> (kind, z3 const)
        self.order = []
        self._sq = {}
        self._sqv, self._ac = [], []
        self.texts = []             # values written as text
        self._uf = {}
        self._sc = []
        self._at = {}
        self.nfresh = 0
        self.maybe_infeasible = False
        self.uninterpreted = False
        self.notes = []
        self.unsup = []             # Unsupported raised on this path
        self.stubbed = False

    # ------------------------------------------------------------ solver
    def add(self, e):
        if e is True or z3.is_true(e):
            return
        self.pc.append(e)
        self.solver.add(e)
        if self.model is not None:
            if not self.evals(e):
                self.model = None

    def evals(self, e):
        """True when the cached model satisfies e"""
        if self.model is None:
            return False
        try:
            return z3.is_true(self.model.eval(e, model_completion=True))
        except z3.Z3Exception:
            return False

    def query(self, e, want_model=False):
        """sat of pc and e -> ('sat'|'unsat'|'unknown', model)"""
        if time.time() > self.deadline:
            raise Budget('time')
        t0 = time.time()
        st = self.st
        st.queries += 1
        s = self.solver
        s.push()
        s.add(e)
        r = s.check()
        m = None
        if r == z3.sat:
            m = s.model()
        s.pop()
        if r == z3.unknown:
            r, m = self._hard(e)
        st.solver_s += time.time() - t0
        if r == z3.sat:
            st.sat += 1
            return 'sat', m
        if r == z3.unsat:
            st.unsat += 1
            return 'unsat', None
        st.unknown += 1
        return 'unknown', None

    def _hard(self, e):
        for mk in (lambda: z3.Tactic('qfnra-nlsat').solver(),
                   lambda: z3.SolverFor('QF_NRA'),
                   lambda: z3.Then('simplify', 'solve-eqs', 'propagate-ineqs',
                                   'smt').solver()):
            try:
                s = mk()
                s.set('timeout', self.tmo)
                s.add(*self.pc)
                s.add(e)
                r = s.check()
                if r == z3.sat:
                    return r, s.model()
                if r == z3.unsat:
                    return r, None
            except z3.Z3Exception:
                continue
        return z3.unknown, None

    # ------------------------------------------------------------ decisions
    def fork(self, e):
        if e is True or e is False:
            return e
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        key = s.get_id()
        if key in self.known:
            return self.known[key]
        v = self._decide(s)
        self.keep.append(s)
        self.known[key] = v
        n = z3.simplify(z3.Not(s))
        self.keep.append(n)
        self.known[n.get_id()] = not v
        return v

    def _decide(self, s):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.dec.append(v)
            self.add(s if v else z3.Not(s))
            return v
        neg = z3.Not(s)
        if self.evals(s):
            t, tm = 'sat', self.model
        else:
            t, tm = self.query(s)
        if t == 'unsat':
            self.add(neg)
            # the pc is satisfiable, hence neg is forced: not a branch
            self.known_forced = True
            self.dec.append(False)
            self.pos += 1
            self.prefix = self.dec[:]
            return False
        if self.evals(neg):
            f, fm = 'sat', self.model
        else:
            f, fm = self.query(neg)
        self.pos += 1
        if f == 'unsat':
            self.dec.append(True)
            self.prefix = self.dec[:]
            self.model = tm if tm is not None else self.model
            self.add(s)
            return True
        self.st.forks += 1
        if t == 'unknown' or f == 'unknown':
            self.maybe_infeasible = True
        self.alts.append(self.dec + [False])
        self.dec.append(True)
        self.prefix = self.dec[:]
        self.model = tm
        self.add(s)
        return True

    def concretize_int(self, e):
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        key = ('int', s.get_id())
        if key in self.known:
            return self.known[key]
        while True:
            if self.pos < len(self.prefix):
                k, v = self.prefix[self.pos]
                self.pos += 1
                self.dec.append((k, v))
                self.add(s == k if v else s != k)
                if v:
                    break
                continue
            if self.model is None:
                r, m = self.query(z3.BoolVal(True))
                if r != 'sat':
                    raise Unsupported('no model to concretise an integer')
                self.model = m
            k = self.model.eval(s, model_completion=True)
            if not z3.is_int_value(k):
                raise Unsupported('integer model')
            k = k.as_long()
            r, m = self.query(s != k)
            self.pos += 1
            if r != 'unsat':
                self.st.forks += 1
                self.alts.append(self.dec + [(k, False)])
            self.dec.append((k, True))
            self.prefix = self.dec[:]
            self.add(s == k)
            break
        self.keep.append(s)
        self.known[key] = k
        return k

    def internal_bool(self, name):
        """a choice the model leaves open (not an input)"""
        self.stubbed = True
        self.nfresh += 1
        return self.fork(z3.Bool('%s!%d' % (name, self.nfresh)))

    def open_bool(self, name):
        """same, left to the solver"""
        self.stubbed = True
        self.nfresh += 1
        return z3.Bool('%s!%d' % (name, self.nfresh))

    def assume(self, e):
        if e is True:
            return
        if e is False:
            raise PathEnd('assumption')
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathEnd('assumption')
        self.add(e)
        if self.model is None and self.pos >= len(self.prefix):
            r, m = self.query(z3.BoolVal(True))
            if r == 'unsat':
                raise PathEnd('assumption')
            self.model = m

    # ------------------------------------------------------------ functions
    def fresh(self, name):
        self.nfresh += 1
        return z3.Real('%s!%d' % (name, self.nfresh))

    def sqrt_of(self, v):
        s = z3.simplify(v, som=True)
        k = s.get_id()
        if k in self._sq:
            return self._sq[k]
        self.keep.append(s)
        if z3.is_rational_value(s) and s.numerator_as_long() >= 0:
            import math
            a, b = s.numerator_as_long(), s.denominator_as_long()
            ra, rb = math.isqrt(a), math.isqrt(b)
            if ra * ra == a and rb * rb == b:
                r = z3.RealVal(Fraction(ra, rb))
                self._sq[k] = r
                return r
        r = self.fresh('sqrt')
        self._sq[k] = r
        self._sqv.append((s, r))
        if z3.is_rational_value(s) and s.numerator_as_long() > 0:
            # tight bounds: keeps constants out of the nonlinear part
            import math
            f = 10 ** 30
            q = math.isqrt(s.numerator_as_long() * f * f // s.denominator_as_long())
            self.add(z3.And(r >= z3.RealVal(Fraction(q, f)), r <= z3.RealVal(Fraction(q + 1, f))))
            return r
        self.add(z3.Or(s < 0, z3.And(r >= 0, r * r == s)))
        return r

    def ufun(self, name, *vs):
        vs = tuple(z3.simplify(v, som=True) for v in vs)
        k = (name,) + tuple(v.get_id() for v in vs)
        if k in self._uf:
            return self._uf[k][1]
        self.keep.append(vs)
        r = self.fresh(name)
        if all(z3.is_rational_value(v) for v in vs):
            # a number: known up to rounding
            xs = [v.numerator_as_long() / v.denominator_as_long() for v in vs]
            with np.errstate(all='ignore'):
                c = float(np.power(xs[0], float(name[4:]))) if name.startswith('pow_') else \
                    float(getattr(np, name)(*xs)) if hasattr(np, name) else float('nan')
            if np.isfinite(c):
                e = 1e-12 * max(1., abs(c))
                self.add(z3.And(r >= rv(c - e), r <= rv(c + e)))
                self._uf[k] = (vs, r)
                return r
        self.uninterpreted = True
        for (k2, (vs2, r2)) in list(self._uf.items()):
            if k2[0] == name:
                self.add(z3.Implies(z3.And(*[a == b for a, b in zip(vs, vs2)]),
                                    r == r2))
        if name == 'arccos':
            self._arccos(vs[0], r)
        self._uf[k] = (vs, r)
        if name == 'arctan':
            t = vs[0]
            b, a = (t.arg(0), t.arg(1)) if z3.is_div(t) else (t, z3.RealVal(1))
            self._at[r.get_id()] = (b, a) if z3.is_rational_value(a) or self.fork(a > 0) else (-b, -a)
        elif name == 'arctan2':
            self._at[r.get_id()] = vs
        if name == 'exp':
            self.add(r > 0)
            self.add(z3.Implies(vs[0] == 0, r == 1))
            self.add(z3.And(z3.Implies(vs[0] <= 0, r <= 1), z3.Implies(vs[0] >= 0, r >= 1)))
        elif name in ('arctan', 'arcsin'):
            self.add(z3.And(r <= rv(1.5707963267948966), r >= rv(-1.5707963267948966)))
        elif name in ('arccos',):
            self.add(z3.And(r >= 0, r <= rv(3.141592653589793)))
        elif name == 'arctan2':
            self.add(z3.And(r >= rv(-3.141592653589793), r <= rv(3.141592653589793)))
        return r

    def cosine(self, v):
        """(a, s) such that v = a/sqrt(s)"""
        v = z3.simplify(v, som=True)
        if z3.is_div(v):
            for (i, n) in self._sqv:
                if n.eq(v.arg(1)):
                    return v.arg(0), i
        return v, z3.RealVal(1)

    def out_of_unit(self, v):
        """conditions: v > 1, v < -1"""
        a, q = self.cosine(v)
        one = z3.simplify(a * a - q, som=True)
        if z3.is_rational_value(q):
            return v > 1, v < -1
        return (one > 0,)

    def _arccos(self, v, r):
        """decreasing, and antisymmetric about (0, pi/2).  Cosines a/sqrt(s)
        are compared without the square roots"""
        pi = rv(3.141592653589793)
        a, q = self.cosine(v)
        self.add(z3.And((a > 0) == (r < pi / 2), (a < 0) == (r > pi / 2)))
        one = z3.simplify(a * a - q, som=True)
        self.add(z3.And(z3.And(a > 0, one == 0) == (r == 0), z3.And(a < 0, one == 0) == (r == pi)))
        for (a2, q2, r2) in self._ac:
            P = z3.simplify(a * a * q2 - a2 * a2 * q, som=True)
            # v < v2, v > v2, v + v2 > 0, v + v2 < 0
            lt = z3.Or(z3.And(a < 0, a2 >= 0), z3.And(a >= 0, a2 > 0, P < 0), z3.And(a < 0, a2 < 0, P > 0))
            gt = z3.Or(z3.And(a2 < 0, a >= 0), z3.And(a2 >= 0, a > 0, P > 0), z3.And(a < 0, a2 < 0, P < 0))
            pos = z3.Or(z3.And(a > 0, a2 >= 0), z3.And(a >= 0, a2 > 0), z3.And(a <= 0, a2 > 0, P < 0), z3.And(a > 0, a2 <= 0, P > 0))
            neg = z3.Or(z3.And(a < 0, a2 <= 0), z3.And(a <= 0, a2 < 0), z3.And(a >= 0, a2 < 0, P < 0), z3.And(a < 0, a2 >= 0, P > 0))
            self.add(z3.And(lt == (r > r2), gt == (r < r2), pos == (r + r2 < pi), neg == (r + r2 > pi)))
        self._ac.append((a, q, r))

    def _angle(self, v):
        """(angle of a known vector, number of quarters of turn) or None"""
        import math
        k = Fraction(0)
        if z3.is_add(v):
            xs = [x for x in v.children() if not z3.is_rational_value(x)]
            if len(xs) != 1:
                return None, 0
            for x in v.children():
                if z3.is_rational_value(x):
                    k += x.as_fraction()
            v = xs[0]
        if v.get_id() not in self._at:
            return None, 0
        n = round(float(k) / (math.pi / 2))
        if abs(float(k) - n * math.pi / 2) > 1e-12:
            return None, 0
        return v, n

    def sincos(self, v):
        v = z3.simplify(v, som=True)
        for (v2, s, c) in self._sc:
            if v2.eq(v):
                return s, c
        base, off = self._angle(v)
        if base is not None:
            for (v2, s, c) in self._sc:
                if v2.eq(base):
                    return {0: (s, c), 1: (c, -s), 2: (-s, -c), 3: (-c, s)}[off % 4]
        s, c = self.fresh('sin'), self.fresh('cos')
        if z3.is_rational_value(v):
            x = v.numerator_as_long() / v.denominator_as_long()
            e = 1e-12 * max(1., abs(x))
            for q, w in ((s, np.sin(x)), (c, np.cos(x))):
                self.add(z3.And(q >= rv(w - e), q <= rv(w + e)))
            self._sc.append((v, s, c))
            return s, c
        base, off = self._angle(v)
        if base is not None:
            # the angle of a known vector (a, b), turned by quarters: exact
            b, a = self._at[base.get_id()]
            r = self.sqrt_of(a * a + b * b)
            self.add(z3.If(r == 0, z3.And(c == 1, s == 0), z3.And(c * r == a, s * r == b)))
            self._sc.append((base, s, c))
            q = off % 4
            return {0: (s, c), 1: (c, -s), 2: (-s, -c), 3: (-c, s)}[q]
        self.uninterpreted = True
        self.add(s * s + c * c == 1)
        for (v2, s2, c2) in self._sc:
            self.add(z3.Implies(v == v2, z3.And(s == s2, c == c2)))
        self._sc.append((v, s, c))
        return s, c

    # ------------------------------------------------------------ models
    def nice_model(self, extra=None, budget_s=6., want=None):
        """concrete values of the inputs for pc (and extra), rounded to short
        dyadic numbers where the constraints leave room.  want: preferred
        values (diversification)"""
        s = z3.Solver()
        s.set('timeout', 4000)
        s.add(*self.pc)
        if extra is not None:
            s.add(extra)
        r = s.check()
        self.st.queries += 1
        m = s.model() if r == z3.sat else None
        if m is None:
            r, m = self._hard(extra if extra is not None else z3.BoolVal(True))
            if r != z3.sat:
                return None
            return self.values(m)
        s.set('timeout', 700)
        t0 = time.time()
        reals = [n for n in self.order if self.inputs[n][0] == 'real']
        for i, n in enumerate(reals):
            if time.time() - t0 > budget_s:
                break
            c = self.inputs[n][1]
            try:
                cur_v = frac_of(m.eval(c, model_completion=True))
            except Unsupported:
                cur_v = Fraction(0)
            cands = []
            if want and n in want:
                cands.append(Fraction(want[n]))
            for d in (1, 8, 64):
                q = Fraction(round(cur_v * d), d)
                if q not in cands:
                    cands.append(q)
            for q in cands:
                if q == cur_v and not (want and n in want):
                    s.add(c == z3.RealVal(q))
                    break
                s.push()
                s.add(c == z3.RealVal(q))
                self.st.queries += 1
                if s.check() == z3.sat:
                    m = s.model()
                    s.pop()
                    s.add(c == z3.RealVal(q))
                    break
                s.pop()
        return self.values(m)

    def values(self, m):
        out = {}
        for n in self.order:
            kind, c = self.inputs[n]
            v = m.eval(c, model_completion=True)
            if kind == 'bool':
                out[n] = bool(z3.is_true(v))
            elif kind == 'int':
                out[n] = int(frac_of(v))
            else:
                out[n] = float(frac_of(v))
        return out
