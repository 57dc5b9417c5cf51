"""Symbolic scalars and the path explorer.

The code under test is executed by CPython itself, on values that are z3 terms.
Numbers are mathematical reals with a NaN flag; a branch on a symbolic boolean
asks the solver which outcomes are feasible and the explorer re-runs the harness
for each of them (depth-first over decision prefixes).
"""
import os
import math
import time
from fractions import Fraction

import numpy as np

from .zz import z3


class Unsupported(Exception):
    """The engine cannot encode this operation."""

    def __init__(self, *a):
        Exception.__init__(self, *a)
        if CUR is not None:
            CUR.unsup.append(str(a[0]) if a else '?')
            if os.environ.get('SYMX_TB'):
                import traceback
                traceback.print_stack()


class PathEnd(BaseException):
    """Ends the current path (infeasible assumption, budget...)."""


class Budget(BaseException):
    pass


F64 = np.float64
NAN = np.float64('nan')
CUR = None            # the running Path


def set_current(p):
    global CUR
    CUR = p


def cur():
    if CUR is None:
        raise Unsupported('symbolic value used outside a path')
    return CUR


# ----------------------------------------------------------------- z3 helpers
_RV = {}


def rv(x):
    """z3 real constant of a python number (exact)."""
    r = _RV.get(x)
    if r is None:
        fr = Fraction(float(x)) if not isinstance(x, (int, np.integer, Fraction)) \
            else Fraction(x)
        r = z3.RealVal(fr)
        if len(_RV) < 100000:
            _RV[x] = r
    return r


def b_and(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def b_not(x):
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def b_ite(c, a, b):
    """boolean ite with python-bool folding"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    return b_or(b_and(c, a), b_and(b_not(c), b))


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def mkbool(e):
    """np.bool_ or SymBool from python bool / z3 expr"""
    if e is True or e is False:
        return np.bool_(e)
    if z3.is_true(e):
        return np.True_
    if z3.is_false(e):
        return np.False_
    return SymBool(e)


def is_sym(x):
    t = type(x)
    return t is SymNum or t is SymBool or t is SymInt


def as_zbool(x):
    """python bool or z3 Bool of a scalar truth value (no fork)"""
    t = type(x)
    if t is SymBool:
        return x.e
    if t is SymNum:
        return b_or(x.nan, x.v != 0)
    if t is SymInt:
        return x.e != 0
    return bool(x)


# ----------------------------------------------------------------- scalars
def stored(i):
    """the value that was pickled"""
    return CUR.texts[i].copy()


class SymBase(object):
    __slots__ = ()
    __array_priority__ = 1e6

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import array
        return array.array_ufunc(ufunc, method, inputs, kw)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        if CUR is None:
            raise Unsupported('pickling a symbolic value')
        CUR.texts.append(self)
        return stored, (len(CUR.texts) - 1,)

    def copy(self):
        return self

    def __format__(self, spec):
        # the text of a value can be read back (npf.read_text)
        if not spec:
            return str(self)
        if CUR is not None and spec.endswith('f') and isinstance(self, SymNum):
            n = spec[:-1].partition('.')[2] or '6'
            if n.isdigit():
                return str(f_round(self, int(n)))
        return '<sym>'

    def __str__(self):
        if CUR is None:
            return '<sym>'
        CUR.texts.append(self)
        return '<sym%d>' % (len(CUR.texts) - 1)

    def __repr__(self):
        return '<sym>'

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def item(self):
        return self

    def flatten(self):
        from . import array
        return array.mk([self])

    ravel = flatten

    def sum(self, *a, **k):
        return self + 0 if type(self) is SymBool else self

    mean = max = min = squeeze = conjugate = sum


class SymBool(SymBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: np.bool_)

    def __bool__(self):
        return cur().fork(self.e)

    def __hash__(self):
        return id(self)

    def _o(self, o):
        if type(o) is SymBool:
            return o.e
        if isinstance(o, (bool, np.bool_)):
            return bool(o)
        return None

    def __and__(self, o):
        z = self._o(o)
        if z is None:
            return _arr_or_ni(np.bitwise_and, self, o)
        return mkbool(b_and(self.e, z))
    __rand__ = __and__

    def __or__(self, o):
        z = self._o(o)
        if z is None:
            return _arr_or_ni(np.bitwise_or, self, o)
        return mkbool(b_or(self.e, z))
    __ror__ = __or__

    def __xor__(self, o):
        z = self._o(o)
        if z is None:
            return _arr_or_ni(np.bitwise_xor, self, o)
        return mkbool(b_ite(self.e, b_not(z), z))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(b_not(self.e))

    def __eq__(self, o):
        z = self._o(o)
        if z is None:
            return num_of(self) == o
        return mkbool(b_ite(self.e, z, b_not(z)))

    def __ne__(self, o):
        z = self._o(o)
        if z is None:
            return num_of(self) != o
        return mkbool(b_ite(self.e, b_not(z), z))

    def any(self, *a, **k):
        return self
    all = any

    def __float__(self):
        return 1. if bool(self) else 0.

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def astype(self, t):
        return _cast(self, t)

    @property
    def dtype(self):
        return np.dtype(bool)


def _arr_or_ni(uf, *a):
    from . import array
    for x in a:
        if type(x).__name__ == 'MaskedConst':
            return x
    if any(isinstance(x, (np.ndarray, list, tuple)) for x in a):
        return array.array_ufunc(uf, '__call__', a, {})
    return NotImplemented


def num_of(x):
    """bool -> int value"""
    if type(x) is SymBool:
        return SymInt(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    return x


class SymInt(SymBase):
    """A symbolic python integer."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: int)

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        return cur().concretize_int(self.e)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __bool__(self):
        return cur().fork(self.e != 0)

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def is_integer(self):
        return True

    def astype(self, t):
        return _cast(self, t)

    @property
    def dtype(self):
        return np.dtype(int)


class SymNum(SymBase):
    """A symbolic float: a real, or NaN when the flag holds."""
    __slots__ = ('v', 'nan')

    def __init__(self, v, nan=False):
        self.v = v
        self.nan = nan

    __class__ = property(lambda self: np.float64)

    def __hash__(self):
        raise Unsupported('hash of a symbolic number')

    def __float__(self):
        raise Unsupported('float() of a symbolic number')

    def __int__(self):
        return int(to_int(self))
    __trunc__ = __int__

    def __index__(self):
        raise TypeError("'numpy.float64' object cannot be interpreted "
                        "as an integer")

    def __bool__(self):
        return cur().fork(b_or(self.nan, self.v != 0))

    def __neg__(self):
        return SymNum(-self.v, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymNum(z3.If(self.v >= 0, self.v, -self.v), self.nan)

    def __round__(self, n=None):
        r = f_round(self, n or 0)
        return r if n is not None else to_int(r)

    def __floor__(self):
        return to_int(f_floor(self))

    def __ceil__(self):
        return to_int(f_ceil(self))

    def is_integer(self):
        return mkbool(b_and(b_not(self.nan), z3.IsInt(self.v)))

    def astype(self, t):
        return _cast(self, t)

    @property
    def dtype(self):
        return np.dtype(float)

    # numpy calls these on object elements
    def sqrt(self):
        return f_sqrt(self)


def _cast(x, t):
    from . import array
    return array.cast_elem(x, array.kind_of_dtype(t))


# --------------------------------------------------------- scalar operations
def parts(x):
    """(z3 real, nan flag) or None when not a finite-or-nan number"""
    t = type(x)
    if t is SymNum:
        return x.v, x.nan
    if t is SymInt:
        return z3.ToReal(x.e), False
    if t is SymBool:
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0)), False
    if t is bool or t is np.bool_:
        return rv(int(x)), False
    if isinstance(x, (int, np.integer, Fraction)):
        return rv(int(x)) if not isinstance(x, Fraction) else rv(x), False
    if isinstance(x, (float, np.floating)):
        if x != x:
            return rv(0), True
        if math.isinf(x):
            return None
        return rv(float(x)), False
    return None


_SCAL = (int, float, np.number, np.bool_, bool, Fraction)


def is_scalar(x):
    return is_sym(x) or isinstance(x, _SCAL)


def _isint(x):
    t = type(x)
    return t is SymInt or t is SymBool or t is bool or t is np.bool_ or \
        isinstance(x, (int, np.integer))


def iparts(x):
    t = type(x)
    if t is SymInt:
        return x.e
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def mknum(v, nan):
    if nan is True or (nan is not False and z3.is_true(nan)):
        return NAN
    if z3.is_rational_value(v) and nan is False:
        return F64(v.numerator_as_long() / v.denominator_as_long()) \
            if float(v.as_fraction()) == v.as_fraction() else SymNum(v, nan)
    return SymNum(v, nan)


def _inf_arith(op, a, b):
    """arithmetic where one operand is a concrete infinity"""
    if is_sym(a):
        s, c, left = a, b, True
    else:
        s, c, left = b, a, False
    v, nan = parts(s)
    if nan is not False:
        if cur().fork(nan):
            return NAN
    if op in ('add', 'sub'):
        r = c if op == 'add' or not left else -c
        return F64(r)
    if op == 'mul' or (op == 'div' and not left):
        if op == 'mul' and cur().fork(v == 0):
            return NAN
        pos = cur().fork(v > 0)
        return F64(c if pos else -c)
    if op == 'div':
        return F64(0.)
    raise Unsupported('inf arithmetic ' + op)


def arith(op, a, b):
    """a <op> b for scalars, at least one symbolic, numpy float semantics"""
    if _isint(a) and _isint(b) and op != 'div':
        x, y = iparts(a), iparts(b)
        if op == 'add':
            return SymInt(x + y)
        if op == 'sub':
            return SymInt(x - y)
        return SymInt(x * y)
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        return _inf_arith(op, a, b)
    (va, na), (vb, nb) = pa, pb
    nan = b_or(na, nb)
    if nan is True:
        return NAN
    if op == 'add':
        if z3.is_rational_value(va) and va.numerator_as_long() == 0:
            return mknum(vb, nan)
        if z3.is_rational_value(vb) and vb.numerator_as_long() == 0:
            return mknum(va, nan)
        return mknum(va + vb, nan)
    if op == 'sub':
        if z3.is_rational_value(vb) and vb.numerator_as_long() == 0:
            return mknum(va, nan)
        return mknum(va - vb, nan)
    if op == 'mul':
        for p, q in ((va, vb), (vb, va)):
            if z3.is_rational_value(p):
                if p.numerator_as_long() == 0:
                    return mknum(rv(0), nan)
                if p.as_fraction() == 1:
                    return mknum(q, nan)
        return mknum(va * vb, nan)
    if op == 'div':
        if z3.is_rational_value(vb):
            f = vb.as_fraction()
            if f != 0:
                return mknum(va if f == 1 else va * z3.RealVal(1 / f), nan)
            zero = True
        else:
            zero = cur().fork(b_and(b_not(nan), vb == 0))
        if zero:
            if nan is not False and cur().fork(nan):
                return NAN
            if z3.is_rational_value(va):
                f = va.as_fraction()
                return NAN if f == 0 else F64('inf') * (1 if f > 0 else -1)
            if cur().fork(va == 0):
                return NAN
            return F64('inf') if cur().fork(va > 0) else F64('-inf')
        return mknum(va / vb, nan)
    raise Unsupported(op)


def compare(op, a, b):
    if _isint(a) and _isint(b):
        x, y = iparts(a), iparts(b)
        return mkbool({'lt': lambda: x < y, 'le': lambda: x <= y,
                       'gt': lambda: x > y, 'ge': lambda: x >= y,
                       'eq': lambda: x == y, 'ne': lambda: x != y}[op]())
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        # concrete infinity against a symbolic finite-or-nan number
        if pa is None and pb is None:
            raise Unsupported('compare')
        s, c, left = (a, b, True) if pb is None else (b, a, False)
        _, nan = parts(s)
        if op == 'eq':
            return np.False_
        if op == 'ne':
            return np.True_
        less = bool(c > 0) == left          # s < +inf, -inf < s
        res = less if op in ('lt', 'le') else not less
        return mkbool(b_and(res, b_not(nan)))
    (va, na), (vb, nb) = pa, pb
    ok = b_and(b_not(na), b_not(nb))
    if op == 'ne':
        return mkbool(b_or(b_not(ok), va != vb))
    r = {'lt': lambda: va < vb, 'le': lambda: va <= vb,
         'gt': lambda: va > vb, 'ge': lambda: va >= vb,
         'eq': lambda: va == vb}[op]()
    return mkbool(b_and(ok, r))


def ite(c, a, b):
    """scalar ite over a z3/py bool condition, elements of one kind"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if type(a) in (SymBool, bool, np.bool_) and type(b) in (SymBool, bool, np.bool_):
        return mkbool(b_ite(c, as_zbool(a), as_zbool(b)))
    if _isint(a) and _isint(b):
        return SymInt(z3.If(c, iparts(a), iparts(b)))
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        return a if cur().fork(c) else b
    nan = b_ite(c, pa[1], pb[1])
    if pa[1] is True:       # value irrelevant when NaN
        return mknum(pb[0], nan)
    if pb[1] is True:
        return mknum(pa[0], nan)
    if pa[0].eq(pb[0]):
        return mknum(pa[0], nan)
    return mknum(z3.If(c, pa[0], pb[0]), nan)


def to_int(x):
    """int(x): truncation"""
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return num_of(x)
    if t is not SymNum:
        return int(x)
    if x.nan is not False and cur().fork(x.nan):
        raise ValueError('cannot convert float NaN to integer')
    v = x.v
    return SymInt(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))


def f_floor(x):
    if type(x) is not SymNum:
        return x if is_sym(x) else np.floor(x)
    return SymNum(z3.ToReal(z3.ToInt(x.v)), x.nan)


def f_ceil(x):
    if type(x) is not SymNum:
        return x if is_sym(x) else np.ceil(x)
    return SymNum(-z3.ToReal(z3.ToInt(-x.v)), x.nan)


def f_round(x, dec=0):
    if not is_sym(x):
        return np.round(x, dec)
    if type(x) is SymInt:
        return x
    sc = Fraction(10) ** int(dec)
    y = x.v * z3.RealVal(sc)
    k = z3.ToInt(y)
    fr = y - z3.ToReal(k)
    up = z3.Or(fr > rv(0.5), z3.And(fr == rv(0.5), k % 2 == 1))
    r = z3.ToReal(z3.If(up, k + 1, k))
    return SymNum(r / z3.RealVal(sc), x.nan)


def f_mod(a, b):
    if _isint(a) and _isint(b):
        if not is_sym(b) and int(b) > 0:
            return SymInt(iparts(a) % iparts(b))
        raise Unsupported('mod')
    if is_sym(b) or not b > 0 or math.isinf(b):
        raise Unsupported('mod by symbolic')
    v, nan = parts(a)
    vb = rv(b)
    return mknum(v - vb * z3.ToReal(z3.ToInt(v / vb)), nan)


def f_floordiv(a, b):
    if _isint(a) and _isint(b):
        if not is_sym(b) and int(b) > 0:
            return SymInt(iparts(a) / iparts(b))
        raise Unsupported('floordiv')
    if is_sym(b) or not b > 0:
        raise Unsupported('floordiv by symbolic')
    v, nan = parts(a)
    return mknum(z3.ToReal(z3.ToInt(v / rv(b))), nan)


def f_sqrt(x):
    if not is_sym(x):
        with np.errstate(all='ignore'):
            return np.sqrt(x)
    v, nan = parts(x)
    return SymNum(cur().sqrt_of(v), b_or(nan, v < 0))


def f_pow(a, b):
    if is_sym(b):
        if type(b) is SymInt:
            b = b.__index__()
        else:
            raise Unsupported('symbolic exponent')
    if not is_sym(a):
        with np.errstate(all='ignore'):
            return np.power(F64(a), b)
    bf = float(b)
    if bf == int(bf) and abs(bf) <= 12:
        n = int(bf)
        if n == 0:
            return F64(1.)
        r = a
        for _ in range(abs(n) - 1):
            r = arith('mul', r, a)
        if n < 0:
            r = arith('div', F64(1.), r)
        return r
    if bf == .5:
        return f_sqrt(a)
    if bf == -.5:
        return arith('div', F64(1.), f_sqrt(a))
    if bf == 1.5:
        return arith('mul', f_sqrt(a), a)
    if bf == .25:
        return f_sqrt(f_sqrt(a))
    v, nan = parts(a)
    return SymNum(cur().ufun('pow_%r' % bf, v), b_or(nan, v < 0))


def f_unary(name):
    """transcendental: an unknown function, equal on equal arguments"""
    real = getattr(np, name)

    def f(x):
        if not is_sym(x):
            with np.errstate(all='ignore'):
                return real(F64(x))
        v, nan = parts(x)
        p = cur()
        if name in ('sin', 'cos'):
            s, c = p.sincos(v)
            return SymNum(s if name == 'sin' else c, nan)
        if name in ('arccos', 'arcsin'):
            nan = b_or(nan, *p.out_of_unit(v))
        if name in ('log', 'log10', 'log2'):
            # log of a non positive number: -inf / nan
            if p.fork(b_and(b_not(nan), v <= 0)):
                return F64('-inf') if p.fork(v == 0) else NAN
        return SymNum(p.ufun(name, v), nan)
    return f


def f_max(a, b):
    """np.maximum (NaN propagates)"""
    if not is_sym(a) and not is_sym(b):
        return np.maximum(a, b)
    if _isint(a) and _isint(b):
        x, y = iparts(a), iparts(b)
        return SymInt(z3.If(x >= y, x, y))
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        return ite(as_zbool(compare('ge', a, b)), a, b)
    return mknum(z3.If(pa[0] >= pb[0], pa[0], pb[0]), b_or(pa[1], pb[1]))


def f_min(a, b):
    if not is_sym(a) and not is_sym(b):
        return np.minimum(a, b)
    if _isint(a) and _isint(b):
        x, y = iparts(a), iparts(b)
        return SymInt(z3.If(x <= y, x, y))
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        return ite(as_zbool(compare('le', a, b)), a, b)
    return mknum(z3.If(pa[0] <= pb[0], pa[0], pb[0]), b_or(pa[1], pb[1]))


def f_isnan(x):
    if type(x) is SymNum:
        return mkbool(x.nan)
    if is_sym(x):
        return np.False_
    return np.bool_(x != x)


def f_isfinite(x):
    if type(x) is SymNum:
        return mkbool(b_not(x.nan))
    if is_sym(x):
        return np.True_
    return np.bool_(np.isfinite(x))


# ------------------------------------------------------- operators on scalars
def _defop(name, fn, uf):
    def fwd(self, o):
        if is_scalar(o):
            return fn(self, o)
        return _arr_or_ni(uf, self, o)

    def rev(self, o):
        if is_scalar(o):
            return fn(o, self)
        return _arr_or_ni(uf, o, self)
    for cls in (SymNum, SymInt, SymBool):
        setattr(cls, '__%s__' % name, fwd)
        setattr(cls, '__r%s__' % name, rev)


_defop('add', lambda a, b: arith('add', a, b), np.add)
_defop('sub', lambda a, b: arith('sub', a, b), np.subtract)
_defop('mul', lambda a, b: arith('mul', a, b), np.multiply)
_defop('truediv', lambda a, b: arith('div', a, b), np.true_divide)
_defop('mod', f_mod, np.mod)
_defop('floordiv', f_floordiv, np.floor_divide)
_defop('pow', f_pow, np.power)


def _defcmp(name, uf):
    def f(self, o):
        if is_scalar(o):
            return compare(name, self, o)
        if o is None:
            return name == 'ne'
        r = _arr_or_ni(uf, self, o)
        return r
    for cls in (SymNum, SymInt) + ((SymBool,) if name not in ('eq', 'ne') else ()):
        setattr(cls, '__%s__' % name, f)


for _n, _u in (('lt', np.less), ('le', np.less_equal), ('gt', np.greater),
               ('ge', np.greater_equal), ('eq', np.equal), ('ne', np.not_equal)):
    _defcmp(_n, _u)
