"""Symbolic execution of real Python code by re-execution.

The code under test is *run*, unmodified, on proxy values that carry z3 terms
(Sym, SymBool, SymTime, SymDelta, and object arrays of those: symex.symnp).  A
branch on a symbolic condition asks the solver which sides are feasible, takes
one and queues the other; the harness is re-executed once per feasible path.  An
assertion (`Ctx.prove`) is a solver query over *all* values that follow the path.

Machine floats are modelled as reals (stated in every evidence file), Python ints
as mathematical integers; transcendental functions are fresh variables
constrained by sound axioms, refined on demand at the solver's own points.
"""
import sys
import math
import os
import time as _time
import itertools
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:
    sys.path.append(_VT)
    import z3
    sys.path.remove(_VT)

import numpy as _np


class Infeasible(BaseException):
    """the current path contradicts an assumption"""


class StopPath(BaseException):
    """the current path ends here (violation recorded)"""


def _brief(z):
    """a name for messages: printing a large expression takes seconds"""
    return str(z)[:60] if z.num_args() == 0 else '%s#%d' % (z.decl().name(), z.get_id())


FORMAT = None       # symex/outenc.py


class SymEscape(Exception):
    """a symbolic value reached something that cannot be encoded"""


class BudgetExhausted(BaseException):
    pass


class Inconclusive(Exception):
    pass


CTX = None


def ctx():
    if CTX is None:
        raise SymEscape('symbolic value used outside a symbolic run')
    return CTX


# ---------------------------------------------------------------------------
# numerals

_rv_cache = {}


def realval(x):
    key = (type(x) is int, x) if not isinstance(x, Fraction) else x
    v = _rv_cache.get(key)
    if v is None:
        if isinstance(x, Fraction):
            v = z3.RealVal(x)
        elif isinstance(x, int):
            v = z3.RealVal(x)
        else:
            v = z3.RealVal(Fraction(repr(float(x))))
        _rv_cache[key] = v
    return v


def is_special(x):
    return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))


def is_num(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating,
                          _np.bool_)) or (isinstance(x, _np.ndarray) and x.ndim == 0
                                          and x.dtype != object)


def pynum(x):
    """concrete number as a Python int/float/Fraction"""
    if isinstance(x, (bool, _np.bool_)):
        return int(x)
    if isinstance(x, (int, Fraction)):
        return x
    if isinstance(x, _np.integer):
        return int(x)
    if isinstance(x, _np.ndarray):
        return pynum(x[()])
    return float(x)


def lift(x):
    """-> (z3 term) or None"""
    if isinstance(x, Sym):
        return x.z
    if isinstance(x, SymBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if is_num(x):
        x = pynum(x)
        if isinstance(x, int):
            return z3.IntVal(x)
        if is_special(x):
            return None
        return realval(x)
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return lift(x[()])
    return None


def to_real(z):
    return z3.ToReal(z) if z.is_int() else z


def _pair(a, b):
    if a.is_int() and b.is_int():
        return a, b
    return to_real(a), to_real(b)


def const_of(z):
    """python value of a z3 numeral, or None"""
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_rational_value(z):
        return Fraction(z.numerator_as_long(), z.denominator_as_long())
    return None


def is_seqlike(o):
    return isinstance(o, (_np.ndarray, list, tuple))


class Sym:
    """a symbolic number (z3 Int or Real)"""
    __slots__ = ('z',)
    __array_priority__ = 1000

    def __init__(self, z):
        self.z = z

    # -- numpy protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp
        return symnp.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp
        return symnp.function_dispatch(func, types, args, kwargs)

    @property
    def is_int(self):
        return self.z.is_int()

    # -- arithmetic
    def _bin(self, o, op, rev=False):
        if is_seqlike(o) and not (isinstance(o, _np.ndarray) and o.ndim == 0):
            if not isinstance(o, _np.ndarray):
                return NotImplemented
            from . import symnp
            a, b = (o, self) if rev else (self, o)
            return symnp.elementwise(op, a, b)
        b = lift(o)
        if b is None:
            if is_num(o) and is_special(pynum(o)):
                return _special(self, pynum(o), op, rev)
            return NotImplemented
        x, y = (b, self.z) if rev else (self.z, b)
        return op_z(op, x, y)

    def __add__(self, o): return self._bin(o, 'add')
    def __radd__(self, o): return self._bin(o, 'add', True)
    def __sub__(self, o): return self._bin(o, 'sub')
    def __rsub__(self, o): return self._bin(o, 'sub', True)
    def __mul__(self, o): return self._bin(o, 'mul')
    def __rmul__(self, o): return self._bin(o, 'mul', True)
    def __truediv__(self, o): return self._bin(o, 'div')
    def __rtruediv__(self, o): return self._bin(o, 'div', True)
    def __and__(self, o):
        """bits of a non-negative integer under a constant mask"""
        if not isinstance(o, (int, _np.integer)) or isinstance(o, (bool, _np.bool_)) or o < 0 or not self.z.is_int():
            return NotImplemented
        r, k, o = z3.IntVal(0), 0, int(o)
        while o >> k:
            if o >> k & 1:
                r = r + (self.z / (1 << k)) % 2 * (1 << k)
            k += 1
        return Sym(z3.simplify(r))

    __rand__ = __and__

    def __floordiv__(self, o): return self._bin(o, 'floordiv')
    def __rfloordiv__(self, o): return self._bin(o, 'floordiv', True)
    def __mod__(self, o): return self._bin(o, 'mod')
    def __rmod__(self, o): return self._bin(o, 'mod', True)
    def __pow__(self, o, m=None): return self._bin(o, 'pow')
    def __rpow__(self, o): return self._bin(o, 'pow', True)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __neg__(self): return Sym(-self.z)
    def __pos__(self): return self

    def __abs__(self):
        return Sym(z3.If(self.z >= 0, self.z, -self.z))

    # -- comparison
    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return self._cmp(o, 'ne')

    def _cmp(self, o, op):
        if isinstance(o, _np.ndarray) and o.ndim > 0:
            from . import symnp
            return symnp.elementwise(op, self, o)
        b = lift(o)
        if b is None:
            if is_num(o) and is_special(pynum(o)):
                v = pynum(o)
                if v != v:
                    return op == 'ne'
                big = v > 0
                return {'lt': big, 'le': big, 'gt': not big, 'ge': not big,
                        'eq': False, 'ne': True}[op]
            return NotImplemented if op not in ('eq', 'ne') else (op == 'ne')
        x, y = _pair(self.z, b)
        return mkbool({'lt': lambda: x < y, 'le': lambda: x <= y,
                       'gt': lambda: x > y, 'ge': lambda: x >= y,
                       'eq': lambda: x == y, 'ne': lambda: x != y}[op]())

    __hash__ = object.__hash__

    def __bool__(self):
        return ctx().branch(self.z != 0)

    def __index__(self):
        if not self.z.is_int():
            raise TypeError('real symbolic value used as an index')
        return ctx().concretize_int(self.z)

    def __int__(self):
        return ctx().concretize_int(trunc_z(self.z))

    def __float__(self):
        c = const_of(z3.simplify(self.z))
        if c is not None:
            return float(c)
        raise SymEscape('float() of a symbolic value')

    def __round__(self, n=None):
        if n is None:
            return Sym(rint_z(self.z))
        s = 10 ** n
        return Sym(to_real(rint_z((self * s).z))) / s

    def __floor__(self): return Sym(floor_z(self.z))
    def __ceil__(self): return Sym(-floor_z(-self.z))
    def __trunc__(self): return Sym(trunc_z(self.z))

    def __repr__(self): return 'Sym(%s)' % (_brief(self.z),)
    __str__ = __repr__

    def __format__(self, spec): return FORMAT(self, spec) if FORMAT else repr(self)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    # numpy scalar look-alikes
    def item(self): return self
    def copy(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def size(self): return 1
    def reshape(self, *shape):
        from . import symnp
        import numpy as np
        a = np.empty((1,), dtype=object)
        a[0] = self
        return a.view(symnp.SymArray).reshape(*shape)

    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def dtype(self):
        return _np.dtype('int64') if self.z.is_int() else _np.dtype('float64')
    @property
    def T(self): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def min(self, *a, **k): return self
    def max(self, *a, **k): return self
    def any(self, *a, **k): return self != 0
    def all(self, *a, **k): return self != 0
    def clip(self, lo=None, hi=None):
        from . import symnp
        return symnp.clip(self, lo, hi)
    def astype(self, t, **k):
        from . import symnp
        return symnp.astype(self, t)
    def round(self, n=0): return self.__round__(n or None)
    def conjugate(self): return self
    def is_integer(self):
        return mkbool(z3.IsInt(to_real(self.z))) if not self.z.is_int() else True


# ---- helpers on z3 terms

def floor_z(z):
    return z if z.is_int() else z3.ToInt(z)


def trunc_z(z):
    if z.is_int():
        return z
    return z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))


def rint_z(z):
    """round half to even"""
    if z.is_int():
        return z
    f = z3.ToInt(z)
    d = z - z3.ToReal(f)
    h = realval(Fraction(1, 2))
    return z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def op_z(op, x, y):
    if op == 'div':
        x, y = to_real(x), to_real(y)
        c = const_of(y)
        if c is None:
            if ctx().branch(y == 0):
                return _div0(x)
        elif c == 0:
            return _div0(x)
        return Sym(x / y)
    if op in ('floordiv', 'mod'):
        x, y = _pair(x, y)
        c = const_of(y)
        if c is None:
            if ctx().branch(y == 0):
                raise ZeroDivisionError('symbolic integer division by zero')
            pos = ctx().branch(y > 0)
        else:
            if c == 0:
                raise ZeroDivisionError('division by zero')
            pos = c > 0
        if x.is_int():
            q = (x / y) if pos else ((-x) / (-y))
        else:
            q = z3.ToReal(z3.ToInt(x / y))
        if op == 'floordiv':
            return Sym(q)
        return Sym(x - y * q)
    if op == 'pow':
        return pow_z(x, y)
    x, y = _pair(x, y)
    if op == 'add':
        return Sym(x + y)
    if op == 'sub':
        return Sym(x - y)
    if op == 'mul':
        return Sym(x * y)
    raise SymEscape('operator ' + op)


def _div0(x):
    c = ctx()
    if c.branch(x == 0):
        return math.nan
    return math.inf if c.branch(x > 0) else -math.inf


def _special(s, v, op, rev):
    """s (finite symbolic) op v (nan/inf)"""
    if v != v:
        return math.nan
    if op == 'add':
        return v
    if op == 'sub':
        return v if rev else -v
    if op == 'mul':
        c = ctx()
        if c.branch(s.z == 0):
            return math.nan
        return v if c.branch(s.z > 0) else -v
    if op == 'div':
        if not rev:
            return 0.0
        return v if ctx().branch(s.z >= 0) else -v
    raise SymEscape('%s with %r' % (op, v))


def pow_z(x, y):
    c = const_of(z3.simplify(y))
    if c is not None:
        if c == int(c) and abs(c) <= 8:
            n = int(c)
            if n == 0:
                return 1
            r = x
            for _ in range(abs(n) - 1):
                r = r * x
            return Sym(r) if n > 0 else 1 / Sym(r)
        if c == Fraction(1, 2):
            return ufs_sqrt(Sym(to_real(x)))
        if c == Fraction(3, 2):
            r = ufs_sqrt(Sym(to_real(x)))
            return r * Sym(to_real(x))
        return apply_uf('pow', Sym(to_real(x)), float(c))
    b = const_of(z3.simplify(x))
    if b is not None and b > 0:
        # b**y = exp(y ln b)
        return apply_uf('exp', Sym(to_real(y)) * math.log(b))
    if b is not None and b == 0:
        cx = ctx()
        if cx.branch(y == 0):
            return 1
        if cx.branch(y > 0):
            return 0
        return math.inf
    lx = apply_uf('log', Sym(to_real(x)))
    if not isinstance(lx, Sym):
        raise SymEscape('pow of non-positive symbolic base')
    return apply_uf('exp', Sym(to_real(y)) * lx)


def relax_ints(f):
    """the same formula with its integers read as reals (None when it divides or
    truncates them): if that has no model, neither has the original"""
    cache = {}

    def conv(t):
        k = t.get_id()
        if k in cache:
            return cache[k][1]
        d = t.decl().kind()
        if z3.is_int_value(t):
            r = z3.RealVal(t.as_long())
        elif d == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0 and z3.is_int(t):
            r = z3.Real('rx!' + t.decl().name())
        elif d == z3.Z3_OP_TO_REAL:
            r = conv(t.arg(0))
        elif d in (z3.Z3_OP_TO_INT, z3.Z3_OP_IS_INT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD,
                   z3.Z3_OP_REM, z3.Z3_OP_DIV) and (
                       z3.is_int(t) or any(z3.is_int(c) for c in t.children())
                       or d in (z3.Z3_OP_TO_INT, z3.Z3_OP_IS_INT)):
            raise ValueError
        elif t.num_args() == 0:
            r = t
        else:
            a = [conv(c) for c in t.children()]
            if d == z3.Z3_OP_ADD:
                r = a[0]
                for x in a[1:]:
                    r = r + x
            elif d == z3.Z3_OP_MUL:
                r = a[0]
                for x in a[1:]:
                    r = r * x
            elif d == z3.Z3_OP_SUB:
                r = a[0]
                for x in a[1:]:
                    r = r - x
            elif d == z3.Z3_OP_UMINUS:
                r = -a[0]
            elif d == z3.Z3_OP_LE:
                r = a[0] <= a[1]
            elif d == z3.Z3_OP_LT:
                r = a[0] < a[1]
            elif d == z3.Z3_OP_GE:
                r = a[0] >= a[1]
            elif d == z3.Z3_OP_GT:
                r = a[0] > a[1]
            elif d == z3.Z3_OP_EQ:
                r = a[0] == a[1]
            elif d == z3.Z3_OP_ITE:
                r = z3.If(*a)
            elif d == z3.Z3_OP_DIV:
                r = a[0] / a[1]
            elif d == z3.Z3_OP_AND:
                r = z3.And(*a)
            elif d == z3.Z3_OP_OR:
                r = z3.Or(*a)
            elif d == z3.Z3_OP_NOT:
                r = z3.Not(a[0])
            elif d == z3.Z3_OP_IMPLIES:
                r = z3.Implies(*a)
            elif d == z3.Z3_OP_DISTINCT:
                r = z3.Distinct(*a)
            elif d == z3.Z3_OP_XOR:
                r = z3.Xor(*a)
            else:
                raise ValueError
        cache[k] = (t, r)
        return r
    import sys as _s
    lim = _s.getrecursionlimit()
    try:
        _s.setrecursionlimit(max(lim, 20000))
        return conv(f)
    except (ValueError, RecursionError):
        return None
    finally:
        _s.setrecursionlimit(lim)


# ---------------------------------------------------------------------------
# booleans

def mkbool(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def boolz(x):
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, Sym):
        return x.z != 0
    return z3.BoolVal(bool(x))


class SymBool:
    __slots__ = ('z',)
    __array_priority__ = 1000

    def __init__(self, z):
        self.z = z

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import symnp
        return symnp.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import symnp
        return symnp.function_dispatch(func, types, args, kwargs)

    def __bool__(self):
        return ctx().branch(self.z)

    def _isarr(self, o):
        return isinstance(o, _np.ndarray) and o.ndim > 0

    def __and__(self, o):
        if self._isarr(o):
            from . import symnp
            return symnp.elementwise('and', self, o)
        return mkbool(z3.And(self.z, boolz(o)))
    __rand__ = __and__

    def __or__(self, o):
        if self._isarr(o):
            from . import symnp
            return symnp.elementwise('or', self, o)
        return mkbool(z3.Or(self.z, boolz(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, boolz(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return mkbool(self.z == boolz(o))
        return self._num() == o

    def __ne__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return mkbool(self.z != boolz(o))
        return self._num() != o

    __hash__ = object.__hash__

    def _num(self):
        return Sym(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._num() + (o._num() if isinstance(o, SymBool) else o)
    def __radd__(self, o): return o + self._num()
    def __sub__(self, o): return self._num() - (o._num() if isinstance(o, SymBool) else o)
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * (o._num() if isinstance(o, SymBool) else o)
    def __rmul__(self, o): return o * self._num()
    def __lt__(self, o): return self._num() < o
    def __le__(self, o): return self._num() <= o
    def __gt__(self, o): return self._num() > o
    def __ge__(self, o): return self._num() >= o
    def __index__(self): return 1 if self else 0
    def __int__(self): return 1 if self else 0
    def __float__(self): return 1.0 if self else 0.0
    def __repr__(self): return 'SymBool(%s)' % (_brief(self.z),)
    def __format__(self, spec): return repr(self)
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def any(self, *a, **k): return self
    def all(self, *a, **k): return self
    def item(self): return self
    def sum(self, *a, **k): return self._num()
    @property
    def dtype(self): return _np.dtype(bool)
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1


def ite(c, a, b):
    """value-level if-then-else (merged when both are numbers/bools)"""
    if not isinstance(c, SymBool):
        if isinstance(c, Sym):
            c = mkbool(c.z != 0)
            if not isinstance(c, SymBool):
                return a if c else b
        else:
            return a if c else b
    if a is b:
        return a
    if isinstance(a, (SymBool, bool, _np.bool_)) and \
            isinstance(b, (SymBool, bool, _np.bool_)):
        return mkbool(z3.If(c.z, boolz(a), boolz(b)))
    za, zb = lift(a), lift(b)
    if za is None or zb is None:
        if isinstance(a, SymTime) and isinstance(b, SymTime):
            return SymTime(ite(c, a.s, b.s))
        if isinstance(a, SymDelta) and isinstance(b, SymDelta):
            return SymDelta(ite(c, a.s, b.s))
        return a if ctx().branch(c.z) else b
    za, zb = _pair(za, zb)
    return Sym(z3.If(c.z, za, zb))


# ---------------------------------------------------------------------------
# transcendental functions: fresh variable + axioms

def _tan_ok(x):
    return abs(x) < 1.5


UF_EVAL = {
    'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos,
    'tan': math.tan, 'atan': math.atan, 'asin': math.asin, 'acos': math.acos,
    'tanh': math.tanh, 'erf': math.erf, 'erfc': math.erfc,
}
UF_INC = {'exp', 'log', 'atan', 'asin', 'tanh', 'erf'}
UF_DEC = {'acos', 'erfc'}
UF_LIP1 = {'sin', 'cos', 'atan', 'tanh'}


def uf_value(name, param, x):
    if name == 'pow':
        return x ** param
    if name == 'sqrt':
        return math.sqrt(x)
    return UF_EVAL[name](x)


def ufs_sqrt(x):
    """sqrt of a number, exact algebraic encoding"""
    if not isinstance(x, Sym):
        x = pynum(x)
        if x != x or x < 0:
            return math.nan
        if x == math.inf:
            return x
        return math.sqrt(x)
    c = const_of(z3.simplify(x.z))
    if c is not None:
        if c < 0:
            return math.nan
        n, d = math.isqrt(c.numerator if isinstance(c, Fraction) else c), \
            math.isqrt(c.denominator if isinstance(c, Fraction) else 1)
        if Fraction(n * n, d * d) == c:
            return Sym(realval(Fraction(n, d)))
    cx = ctx()
    if cx.branch(to_real(x.z) < 0):
        return math.nan
    return cx.uf('sqrt', None, x)


def free_consts(z, out=None):
    out, seen, todo = {}, set(), [z]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.num_args() == 0:
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[e.get_id()] = e
        else:
            todo += e.children()
    return list(out.values())


def nearly_same(a, b):
    """terms that differ by rounding of their coefficients, judged at a point"""
    vs = {v.get_id(): v for e in (a, b) for v in free_consts(e)}
    if len(vs) > 12:
        return False
    at = [(v, z3.RealVal(3 + 4 * i) if v.sort() == z3.RealSort() else z3.IntVal(3 + 4 * i))
          for i, v in enumerate(vs.values()) if not z3.is_bool(v)]
    d = const_of(z3.simplify(z3.substitute(a - b, *at)))
    return d is not None and abs(d) < 1e-9


def const_ratio(y, x):
    """y / x as a number if y is a multiple of x whatever the values; None otherwise"""
    if not isinstance(x, Sym):
        return None
    zx = to_real(x.z)
    zy = to_real(lift(y))
    vs = free_consts(zx)
    if len(vs) > 6:
        return None
    at = [(v, z3.RealVal(3 + 4 * i) if v.sort() == z3.RealSort() else z3.IntVal(3 + 4 * i))
          for i, v in enumerate(vs) if not z3.is_bool(v)]
    cx = const_of(z3.simplify(z3.substitute(zx, *at)))
    cy = const_of(z3.simplify(z3.substitute(zy, *at)))
    if not cx or cy is None:
        return None
    c = Fraction(cy) / Fraction(cx)
    d = z3.simplify(zy - z3.RealVal(c) * zx, som=True)
    return float(c) if const_of(d) == 0 else None


def apply_uf(name, x, param=None):
    if isinstance(x, SymBool):
        x = x._num()
    if not isinstance(x, Sym):
        x = pynum(x)
        if x != x:
            return x
        if name == 'exp':
            if x == -math.inf:
                return 0.0
            return math.exp(x) if x < 700 else math.inf
        if name == 'log':
            if x == 0:
                return -math.inf
            if x < 0:
                return math.nan
            if x == math.inf:
                return x
        if name == 'pow':
            return float(_np.power(float(x), param))
        return uf_value(name, param, float(x))
    cx = ctx()
    if name == 'log':
        if cx.branch(to_real(x.z) <= 0):
            return -math.inf if cx.branch(x.z == 0) else math.nan
    elif name in ('asin', 'acos'):
        if cx.branch(z3.Or(to_real(x.z) > 1, to_real(x.z) < -1)):
            return math.nan
    elif name == 'pow':
        if cx.branch(to_real(x.z) <= 0):
            if cx.branch(to_real(x.z) == 0):
                return 0.0 if param > 0 else math.inf
            return math.nan
    return cx.uf(name, param, x)


# ---------------------------------------------------------------------------
# datetimes

import datetime as _dt

EPOCH = _dt.datetime(1970, 1, 1)


def td_seconds(td):
    """exact seconds of a real timedelta"""
    f = Fraction(td.days * 86400 + td.seconds) + Fraction(td.microseconds, 10**6)
    return int(f) if f.denominator == 1 else f


def dt_seconds(d):
    return td_seconds(d.replace(tzinfo=None) - EPOCH)


class SymDelta:
    """timedelta with symbolic seconds"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    @staticmethod
    def of(o):
        if isinstance(o, SymDelta):
            return o
        if isinstance(o, _dt.timedelta):
            return SymDelta(td_seconds(o))
        return None

    def total_seconds(self):
        return self.s

    @property
    def days(self):
        return self.s // 86400

    @property
    def seconds(self):
        r = self.s - (self.s // 86400) * 86400
        return Sym(floor_z(r.z)) if isinstance(r, Sym) else r

    @property
    def microseconds(self):
        if isinstance(self.s, Sym) and self.s.is_int:
            return 0
        f = Sym(floor_z(self.s.z))
        return (self.s - f) * 10**6

    def __add__(self, o):
        d = SymDelta.of(o)
        if d is not None:
            return SymDelta(self.s + d.s)
        t = SymTime.of(o)
        if t is not None:
            return SymTime(t.s + self.s)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        d = SymDelta.of(o)
        return NotImplemented if d is None else SymDelta(self.s - d.s)

    def __rsub__(self, o):
        d = SymDelta.of(o)
        if d is not None:
            return SymDelta(d.s - self.s)
        t = SymTime.of(o)
        if t is not None:
            return SymTime(t.s - self.s)
        return NotImplemented

    def __mul__(self, o): return SymDelta(self.s * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        d = SymDelta.of(o)
        if d is not None:
            return self.s / d.s
        return SymDelta(self.s / o)

    def __rtruediv__(self, o):
        d = SymDelta.of(o)
        return d.s / self.s

    def __floordiv__(self, o):
        d = SymDelta.of(o)
        if d is not None:
            return self.s // d.s
        raise SymEscape('timedelta // number')

    def __mod__(self, o):
        d = SymDelta.of(o)
        return SymDelta(self.s % d.s)

    def __neg__(self): return SymDelta(-self.s)
    def __abs__(self): return SymDelta(abs(self.s))
    def __bool__(self): return bool(self.s != 0)

    def _c(self, o, op):
        d = SymDelta.of(o)
        if d is None:
            return NotImplemented
        return _cmpv(self.s, d.s, op)

    def __lt__(self, o): return self._c(o, 'lt')
    def __le__(self, o): return self._c(o, 'le')
    def __gt__(self, o): return self._c(o, 'gt')
    def __ge__(self, o): return self._c(o, 'ge')
    def __eq__(self, o):
        r = self._c(o, 'eq')
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._c(o, 'ne')
        return True if r is NotImplemented else r
    __hash__ = object.__hash__
    def __repr__(self): return 'SymDelta(%r)' % (self.s,)
    __str__ = __repr__
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def _cmpv(a, b, op):
    return {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b,
            'ge': lambda: a >= b, 'eq': lambda: a == b, 'ne': lambda: a != b}[op]()


class SymTime:
    """naive datetime with symbolic seconds since 1970-01-01"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    @staticmethod
    def of(o):
        if isinstance(o, SymTime):
            return o
        if isinstance(o, _dt.datetime):
            return SymTime(dt_seconds(o))
        return None

    def __add__(self, o):
        d = SymDelta.of(o)
        return NotImplemented if d is None else SymTime(self.s + d.s)
    __radd__ = __add__

    def __sub__(self, o):
        d = SymDelta.of(o)
        if d is not None:
            return SymTime(self.s - d.s)
        t = SymTime.of(o)
        if t is not None:
            return SymDelta(self.s - t.s)
        return NotImplemented

    def __rsub__(self, o):
        t = SymTime.of(o)
        return NotImplemented if t is None else SymDelta(t.s - self.s)

    def _c(self, o, op):
        t = SymTime.of(o)
        if t is None:
            return NotImplemented
        return _cmpv(self.s, t.s, op)

    def __lt__(self, o): return self._c(o, 'lt')
    def __le__(self, o): return self._c(o, 'le')
    def __gt__(self, o): return self._c(o, 'gt')
    def __ge__(self, o): return self._c(o, 'ge')

    def __eq__(self, o):
        return self._c(o, 'eq')

    def __ne__(self, o):
        return self._c(o, 'ne')

    __hash__ = object.__hash__

    def replace(self, **kw):
        for k, v in kw.items():
            if k == 'tzinfo':
                continue
            if k == 'microsecond' and v == 0:
                return SymTime(Sym(floor_z(self.s.z)) if isinstance(self.s, Sym) else int(self.s))
            raise SymEscape('SymTime.replace(%s)' % k)
        return self

    @property
    def tzinfo(self): return None

    @property
    def microsecond(self):
        if isinstance(self.s, Sym) and self.s.is_int:
            return 0
        return (self.s - Sym(floor_z(self.s.z))) * 10**6

    def isoformat(self, *a, **k): return 'SymTime'
    def strftime(self, *a): return 'SymTime'
    def timetuple(self):
        return SymTimeTuple(self)
    def timestamp(self): return self.s
    def __repr__(self): return 'SymTime(%r)' % (self.s,)
    __str__ = __repr__
    def __format__(self, spec): return repr(self)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __bool__(self): return True


class SymTimeTuple(tuple):
    """the only use in the code is time.mktime(tuple(dt.timetuple()[:-1] + (0,)))"""
    def __new__(cls, t):
        o = tuple.__new__(cls, (t,) * 9)
        return o


# ---------------------------------------------------------------------------
# the context

class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0
        self.proved = 0
        self.unknown = 0
        self.reached = {}

    def as_dict(self):
        return dict(queries=self.queries, solver_s=round(self.solver_s, 3),
                    paths=self.paths, branches=self.branches,
                    obligations_discharged=self.proved,
                    unknown=self.unknown, reached=dict(self.reached))


class Violation:
    def __init__(self, label, inputs, note=''):
        self.label = label
        self.inputs = inputs
        self.note = note


class SymCtx:
    """symbolic context of one harness"""
    symbolic = True

    def __init__(self, name='', branch_timeout=3000, prove_timeout=20000,
                 max_paths=4000, deadline=None):
        self.name = name
        self.bt = branch_timeout
        self.pt = prove_timeout
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.violations = []
        self.inconclusive = []
        self.work = [[]]
        self.reset_path([])
        self.lemma_points = {}     # (name, param) -> set of floats
        self.samples = []
        self.undecided = []        # obligations the solver gave no verdict on
        self.incomplete = None     # why not every path was explored
        self.soft = []             # paths that left the encodable fragment
        self.encoded = set()       # native functions executed from their own encoding
        self.max_samples = 2
        self.quiet_paths = 0

    # -- path bookkeeping
    def reset_path(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.bt)
        self.pc = []
        self.inputs = {}
        self.input_order = []
        self.known = {}
        self.uf_apps = []
        self.uf_cache = {}
        self.fresh = itertools.count()
        self.rand_count = 0
        self.draws = []
        self.draw_ranges = []
        self.c_draws = []
        self.max_draws = None
        self.stream = None
        self.notes = {}
        self.observed = {}

    def observe(self, name, value):
        """remember a result: compared with the real code when the path is replayed"""
        if hasattr(value, 'shape') and getattr(value, 'shape', ()) != ():
            for ix in _np.ndindex(*value.shape):
                self.observe('%s%s' % (name, list(ix)), value[ix])
            return
        self.observed[name] = value

    def add(self, z):
        if z3.is_true(z):
            return
        self.pc.append(z)
        self.solver.add(z)

    def check(self, *extra, timeout=None):
        t = _time.time()
        self.stats.queries += 1
        self.solver.set('timeout', int(timeout or self.bt))
        r = self.solver.check(*extra)
        self.stats.solver_s += _time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def branch(self, cond):
        """every call on a solver term takes one slot of the decision list, whether or not
        it needs the solver: the slots of a prefix line up when a path is run again"""
        if isinstance(cond, bool):
            return cond
        i = len(self.decisions)
        if i < len(self.prefix):
            d, forced = self.prefix[i]
            if not isinstance(d, bool):
                raise Inconclusive('path replay out of step')
            self.decisions.append((d, forced))
            if not forced:
                c = z3.simplify(cond)
                if z3.is_true(c) or z3.is_false(c):
                    raise Inconclusive('path replay out of step')
                nc = z3.simplify(z3.Not(c))
                self._learn(c, nc, d)
            return d
        c = z3.simplify(cond)
        if z3.is_true(c):
            self.decisions.append((True, True))
            return True
        if z3.is_false(c):
            self.decisions.append((False, True))
            return False
        k = c.get_id()
        if k in self.known:
            d = self.known[k][0]
            self.decisions.append((d, True))
            return d
        nc = z3.simplify(z3.Not(c))
        self.stats.branches += 1
        if self.deadline and _time.time() > self.deadline:
            raise BudgetExhausted('time budget of the case exhausted')
        rt = self.check(c)
        if rt == z3.unsat:
            d, forced = False, True
        else:
            rf = self.check(nc)
            if rf == z3.unsat:
                d, forced = True, True
            else:
                d, forced = True, False
                self.work.append(list(self.decisions) + [(False, False)])
        self.decisions.append((d, forced))
        self._learn(c, nc, d, forced)
        return d

    def _learn(self, c, nc, d, forced=False):
        self.known[c.get_id()] = (d, c)
        self.known[nc.get_id()] = (not d, nc)
        if not forced:
            self.add(c if d else nc)

    def concretize_int(self, z):
        z = z3.simplify(z)
        c = const_of(z)
        if c is not None:
            return int(c)
        # enumerate feasible values, one branch each
        for _ in range(400):
            i = len(self.decisions)
            if i < len(self.prefix) and isinstance(self.prefix[i][0], tuple):
                tag, v = self.prefix[i][0]
            else:
                if self.check() != z3.sat:
                    raise Infeasible()
                v = self.solver.model().eval(z, model_completion=True).as_long()
                tag = 'is'
                if self.check(z != v) != z3.unsat:
                    self.work.append(list(self.decisions) + [(('not', v), False)])
            self.decisions.append(((tag, v), False))
            if tag == 'is':
                self.add(z == v)
                return v
            self.add(z != v)
        raise Inconclusive('concretisation of an integer with too many values')

    # -- inputs
    def _var(self, name, mk, kind):
        if name in self.inputs:
            raise RuntimeError('duplicate input ' + name)
        v = mk(name)
        self.inputs[name] = (kind, v)
        self.input_order.append(name)
        return v

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False):
        v = self._var(name, z3.Real, 'real')
        if lo is not None:
            self.add(v > realval(lo) if lo_strict else v >= realval(lo))
        if hi is not None:
            self.add(v < realval(hi) if hi_strict else v <= realval(hi))
        return Sym(v)

    def int(self, name, lo=None, hi=None):
        v = self._var(name, z3.Int, 'int')
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return Sym(v)

    def bool(self, name):
        v = self._var(name, z3.Bool, 'bool')
        return SymBool(v)

    def choice(self, name, options):
        """a symbolic index into options, decided by branching"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        v = self.int(name, 0, len(options) - 1)
        return options[v.__index__()]

    def flag(self, name):
        return bool(self.bool(name))

    def time(self, name, lo=0, hi=10**7, base=_dt.datetime(2015, 1, 1), integer=True):
        """datetime = base + symbolic (integer) seconds"""
        s = self.int(name, lo, hi) if integer else self.real(name, lo, hi)
        return SymTime(s + dt_seconds(base))

    def delta(self, name, lo, hi, integer=True):
        s = self.int(name, lo, hi) if integer else self.real(name, lo, hi)
        return SymDelta(s)

    def array(self, x, dtype=float):
        from . import symnp
        return symnp.array(x, dtype=dtype)

    def reals(self, name, n, lo=None, hi=None, **kw):
        return self.array([self.real('%s%d' % (name, i), lo, hi, **kw)
                           for i in range(n)])

    def fresh_real(self, tag):
        return z3.Real('%s!%d' % (tag, next(self.fresh)))

    def rand_real(self, tag, lo, hi, hi_strict=True):
        """environment: an arbitrary value of a random source in [lo, hi)"""
        if self.stream is not None:
            u = self._seeded(tag)
            v = lo + (hi - lo) * u if tag != 'normal' else 16 * u - 8
            self.draws.append(v)
            self.draw_ranges.append((v, lo, hi))
            return v
        self.rand_count += 1
        name = 'rand_%s_%d' % (tag, self.rand_count)
        v = self._var(name, z3.Real, 'real')
        lo_, hi_ = lift(lo), lift(hi)
        lo_, hi_ = to_real(lo_), to_real(hi_)
        self.add(v >= lo_)
        self.add(z3.Or(v < hi_, v == lo_) if hi_strict else v <= hi_)
        self.draws.append(Sym(v))
        self.draw_ranges.append((Sym(v), lo, hi))
        return Sym(v)

    # a seeded source: the k-th value after seeding with s is the same each time
    stream = None

    def seeded(self):
        """harness: from now on, seeding a random source starts its values again"""
        self.stream = [None, 0]
        self.streams = {}
        self.c_stream = 0
        from gnome.cy_gnome import cy_helpers
        cy_helpers.srand = lambda s: ctx().reseed_c(s)

    def reseed(self, s):
        if self.stream is not None:
            self.stream = [s, 0]

    def reseed_c(self, s):
        if self.stream is not None:
            self.c_stream = 0

    def _seeded(self, tag):
        k = (self.stream[0], self.stream[1], tag)
        self.stream[1] += 1
        if k not in self.streams:
            u = self.real('seed_%s_%d_%s' % k, 0, 1)
            self.add(u.z < 1)
            self.streams[k] = u
        return self.streams[k]

    def c_rand(self, hi):
        """a value of C's rand(); a real number for the solver: the code uses it in products"""
        if self.max_draws is not None and len(self.c_draws) >= self.max_draws:
            raise Infeasible()
        if self.stream is not None and self.c_stream < len(self.c_draws):
            v = self.c_draws[self.c_stream]
            self.c_stream += 1
            return v
        self.c_stream = len(self.c_draws) + 1
        v = self._var('crand_%d' % len(self.c_draws), z3.Real, 'real')
        self.add(v >= 0)
        self.add(v <= hi)
        self.c_draws.append(Sym(v))
        return Sym(v)

    def limit_draws(self, n):
        """bound: at most n calls of C's rand()"""
        self.max_draws = n

    def crand_used(self):
        """the values of C's rand() so far"""
        return list(self.c_draws)

    def rand_int(self, tag, lo, hi):
        self.rand_count += 1
        name = 'rand_%s_%d' % (tag, self.rand_count)
        v = self._var(name, z3.Int, 'int')
        self.add(v >= lift(lo))
        self.add(v < lift(hi))
        return Sym(v)

    # -- uninterpreted functions
    def uf(self, name, param, x):
        xz = z3.simplify(to_real(x.z))
        key = (name, param, xz.get_id())
        hit = self.uf_cache.get(key)
        if hit is not None:
            return Sym(hit[1])
        y = self.fresh_real(name)
        self.uf_cache[key] = (xz, y)
        R = realval
        A = []
        if name == 'exp':
            A += [y > 0, y >= 1 + xz, (xz <= 0) == (y <= 1), (xz == 0) == (y == 1),
                  y * (1 - xz) <= 1]
        elif name == 'log':
            A += [y <= xz - 1, (xz >= 1) == (y >= 0), (xz == 1) == (y == 0),
                  y * xz >= xz - 1]
        elif name == 'sqrt':
            A += [y >= 0, y * y == xz]
        elif name == 'pow':
            A += [y > 0, z3.Implies(xz == 1, y == 1)]
            if param > 0:
                A += [(xz >= 1) == (y >= 1)]
                if param >= 1:
                    A += [z3.Implies(xz >= 1, y >= xz), z3.Implies(xz <= 1, y <= xz)]
                else:
                    A += [z3.Implies(xz >= 1, y <= xz), z3.Implies(xz <= 1, y >= xz)]
            else:
                A += [(xz >= 1) == (y <= 1)]
        elif name in ('sin', 'cos'):
            A += [y >= -1, y <= 1]
            if name == 'cos':
                A += [y >= 1 - xz * xz / 2,
                      z3.Implies(z3.And(xz <= R(1.5707963), xz >= R(-1.5707963)), y > 0)]
            else:
                A += [z3.Implies(xz >= 0, y <= xz), z3.Implies(xz <= 0, y >= xz),
                      z3.Implies(z3.And(xz > 0, xz < R(3.14159265)), y > 0),
                      z3.Implies(z3.And(xz < 0, xz > R(-3.14159265)), y < 0)]
            other = 'cos' if name == 'sin' else 'sin'
            hit = self.uf_cache.get((other, None, xz.get_id()))
            if hit is not None:
                A.append(y * y + hit[1] * hit[1] == 1)
        elif name in ('atan',):
            A += [y < R(1.570797), y > R(-1.570797), (xz >= 0) == (y >= 0)]
        elif name in ('asin',):
            A += [y < R(1.570797), y > R(-1.570797), (xz >= 0) == (y >= 0)]
        elif name == 'acos':
            A += [y >= 0, y < R(3.141593)]
        elif name == 'tanh':
            A += [y < 1, y > -1, (xz >= 0) == (y >= 0),
                  z3.Implies(xz >= 0, y <= xz)]
        elif name == 'erf':
            A += [y < 1, y > -1, (xz >= 0) == (y >= 0)]
        elif name == 'erfc':
            A += [y > 0, y < 2]
        elif name == 'tan':
            pass
        else:
            raise SymEscape('function ' + name)
        if name != 'sqrt':
            inc = name in UF_INC or (name == 'pow' and param > 0)
            dec = name in UF_DEC or (name == 'pow' and param < 0)
            for (n2, p2, x2, y2) in self.uf_apps:
                if (n2, p2) != (name, param):
                    continue
                A.append((xz == x2) == (y == y2) if inc or dec else z3.Implies(xz == x2, y == y2))
                if name in UF_LIP1 and nearly_same(xz, x2):
                    d = z3.simplify(xz - x2, som=True)
                    d = z3.If(d >= 0, d, -d)
                    A += [y - y2 <= d, y2 - y <= d]
                if inc:
                    A.append((xz < x2) == (y < y2))
                elif dec:
                    A.append((xz < x2) == (y > y2))
            for pt in self.lemma_points.get((name, param), ()):
                A += self._point_lemmas(name, param, xz, y, pt)
        self.uf_apps.append((name, param, xz, y))
        for a in A:
            self.add(a)
        return Sym(y)

    def _point_lemmas(self, name, param, x, y, pt):
        try:
            v = uf_value(name, param, pt)
        except (ValueError, OverflowError, ZeroDivisionError):
            return []
        e = abs(v) * 1e-12 + 1e-300
        lo, hi = Fraction(v - e), Fraction(v + e)
        # shorten
        lo = lo.limit_denominator(10**14) - Fraction(1, 10**13) if abs(v) > 1e-9 else lo
        hi = hi.limit_denominator(10**14) + Fraction(1, 10**13) if abs(v) > 1e-9 else hi
        p = realval(Fraction(pt))
        lo, hi = z3.RealVal(lo), z3.RealVal(hi)
        A = []
        inc = name in UF_INC or (name == 'pow' and param > 0)
        dec = name in UF_DEC or (name == 'pow' and param < 0)
        if inc:
            A += [z3.Implies(x <= p, y <= hi), z3.Implies(x >= p, y >= lo)]
        elif dec:
            A += [z3.Implies(x <= p, y >= lo), z3.Implies(x >= p, y <= hi)]
        if name == 'exp':
            A += [y >= lo + lo * (x - p)] if v > 0 else []
        if name in ('sin', 'cos'):
            A += [y - hi <= z3.If(x >= p, x - p, p - x),
                  lo - y <= z3.If(x >= p, x - p, p - x)]
        return A

    # -- assumptions and assertions
    def assume(self, cond):
        if not isinstance(cond, (SymBool, Sym)):
            if not cond:
                raise Infeasible()
            return
        z = z3.simplify(boolz(cond))
        if z3.is_false(z):
            raise Infeasible()
        self.add(z)

    def assume_feasible(self):
        if self.check() == z3.unsat:
            raise Infeasible()

    def reach(self, label):
        """vacuity witness: this point was reached on a feasible path"""
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1

    def require(self, cond, label, **kw):
        self.prove(cond, label, **kw)

    # -- helpers that work on symbolic and plain values alike
    def ite(self, c, a, b):
        return ite(c, a, b)

    def mn(self, a, b):
        return ite(a <= b, a, b)

    def mx(self, a, b):
        return ite(a >= b, a, b)

    def floor(self, x):
        return Sym(floor_z(x.z)) if isinstance(x, Sym) else math.floor(x)

    def secs(self, s):
        return SymDelta(s)

    def hint(self, name, x):
        """bound the function at a number (lemma)"""
        self.lemma_points.setdefault((name, None), set()).add(float(x))

    def fn(self, name, x):
        """a math function of a symbolic or plain value"""
        if name == 'sqrt':
            return ufs_sqrt(x)
        return apply_uf(name, x)

    def cosd(self, lat):
        """cosine of a latitude within 85 degrees of the equator"""
        from . import symnp
        c = apply_uf('cos', lat * symnp.DEG)
        if isinstance(c, Sym):
            self.assume(c >= 0.08)
        return c

    def any(self, conds):
        r = False
        for c in conds:
            r = mkbool(z3.Or(boolz(r), boolz(c)))
        return r

    def all(self, conds):
        r = True
        for c in conds:
            r = mkbool(z3.And(boolz(r), boolz(c)))
        return r

    def not_(self, a):
        return mkbool(z3.Not(boolz(a)))

    def iff(self, a, b):
        return mkbool(boolz(a) == boolz(b))

    def implies(self, a, b):
        return mkbool(z3.Implies(boolz(a), boolz(b)))

    def close(self, a, b, tol=1e-9, rel=1e-9):
        """symbolic |a-b| <= tol + rel*|b|  (both may be concrete)"""
        if not isinstance(a, (Sym, SymBool)) and not isinstance(b, (Sym, SymBool)):
            a, b = pynum(a), pynum(b)
            if is_special(a) or is_special(b):
                return (a != a and b != b) or a == b
            return abs(a - b) <= tol + rel * abs(b)
        za, zb = lift(a), lift(b)
        if za is None or zb is None:
            return False
        d = z3.simplify(to_real(za) - to_real(zb), som=True)
        c = const_of(d)
        if c == 0:
            return True
        bound = realval(tol)
        if rel:
            bb = to_real(zb)
            bound = bound + realval(rel) * z3.If(bb >= 0, bb, -bb)
        return mkbool(z3.And(d <= bound, -d <= bound))

    def prove(self, cond, label, note='', timeout=None):
        self.reach(label)
        if not isinstance(cond, (SymBool, Sym)):
            if cond:
                self.stats.proved += 1
                return
            # violated outright on this path
            r = self.check(timeout=self.pt)
            if r == z3.unsat:
                raise Infeasible()
            self._sat_or_unknown(r, label, note, z3.BoolVal(True))
            raise StopPath()
        z = z3.simplify(boolz(cond))
        if z3.is_true(z):
            self.stats.proved += 1
            return
        nz = z3.Not(z)
        r = self.check(nz, timeout=min(timeout or self.pt, 2500))
        if r == z3.unsat:
            self.stats.proved += 1
            return
        if r == z3.unknown:
            r = self._portfolio(nz)
            if r == z3.unsat:
                self.stats.proved += 1
                return
        if r == z3.sat and self.uf_apps:
            r = self._refine(nz)
            if r == z3.unsat:
                self.stats.proved += 1
                return
        self._sat_or_unknown(r, label, note, nz)
        raise StopPath()

    def _sat_or_unknown(self, r, label, note, nz):
        if r == z3.sat:
            m = getattr(self, '_model', None)
            if m is None:
                m = self._last_model(nz)
            self._model = None
            self.violations.append(Violation(label, self.model_inputs(m), note))
        else:
            inp = self._guess(nz)
            if inp is not None:
                self.violations.append(Violation(label, inp, note + ' (found with inputs partly fixed)'))
            else:
                self.undecided.append(label)

    def _last_model(self, nz):
        return self.solver.model()

    def _portfolio(self, nz):
        """other solving strategies for one query, short limits first"""
        self._model = None
        g = z3.And(*(self.pc + [nz]))
        rel = relax_ints(g)
        g = z3.simplify(g)
        rounds = [3000, max(3000, self.pt)]
        for to in rounds:
            for tac, f, relaxed in ((('qfnra-nlsat', rel, True),) if rel is not None else ()) + (
                    ('qfnra-nlsat', g, False), ('smt', g, False), ('qfufnra', g, False)):
                try:
                    s = z3.Then('simplify', 'propagate-values', 'solve-eqs', tac).solver()
                    s.set('timeout', int(to))
                    s.add(f)
                    t = _time.time()
                    self.stats.queries += 1
                    r = s.check()
                    self.stats.solver_s += _time.time() - t
                except z3.Z3Exception:
                    continue
                if r == z3.sat and not relaxed:
                    self._model = s.model()
                    return r
                if r == z3.unsat:
                    return r
        return z3.unknown

    def _guess(self, nz):
        """sat side only: fix some inputs to simple values and ask again"""
        import random
        rnd = random.Random(1)
        names = [n for n in self.input_order if self.inputs[n][0] != 'bool']
        for attempt in range(24):
            s = z3.Solver()
            s.set('timeout', 1500)
            s.add(*self.pc)
            if s.check() != z3.sat:
                s.add(nz)
            else:
                m = s.model()
                s.add(nz)
                keep = rnd.sample(names, min(len(names), 1 + attempt % 4)) if names else []
                for n in names:
                    if n in keep:
                        continue
                    v = self.inputs[n][1]
                    mv = m.eval(v, model_completion=True)
                    if const_of(mv) is None:
                        continue
                    s.push()
                    s.add(v == mv)
                    if s.check() != z3.sat and attempt % 2:
                        s.pop()
            self.stats.queries += 1
            if s.check() == z3.sat:
                return self.model_inputs(s.model())
        return None

    def _mval(self, m, v):
        z = m.eval(v, model_completion=True)
        if z3.is_algebraic_value(z):
            z = z.approx(30)
        return const_of(z)

    def _refine(self, nz):
        """make the model agree with the real transcendental functions"""
        m = getattr(self, '_model', None) or self.solver.model()
        self._model = None
        extra = []
        for it in range(25):
            bad = False
            for (name, param, x, y) in self.uf_apps:
                if name == 'sqrt':
                    continue
                xv, yv = self._mval(m, x), self._mval(m, y)
                if xv is None or yv is None:
                    continue
                try:
                    rv = uf_value(name, param, float(xv))
                except (ValueError, OverflowError, ZeroDivisionError):
                    continue
                if abs(rv - float(yv)) > 1e-9 * max(abs(rv), 1e-25):
                    bad = True
                    pt = float(xv)
                    h = 1e-5 * max(abs(pt), 1e-3)
                    for pt in (pt,) if it < 2 else (pt, pt - h, pt + h):    # around it: no creeping up to a limit
                        self.lemma_points.setdefault((name, param), set()).add(pt)
                        for (n2, p2, x2, y2) in self.uf_apps:
                            if (n2, p2) == (name, param):
                                extra += self._point_lemmas(name, param, x2, y2, pt)
            if not bad:
                self._model = m
                return z3.sat
            s = z3.Solver()
            s.set('timeout', self.pt)
            s.add(*self.pc)
            s.add(nz)
            s.add(*extra)
            t = _time.time()
            self.stats.queries += 1
            r = s.check()
            self.stats.solver_s += _time.time() - t
            if r == z3.unsat:
                return r
            if r != z3.sat:
                return z3.sat if self._pin(nz, extra, m) else r
            m = s.model()
            if it in (3, 8, 16) and self._pin(nz, extra, m):
                return z3.sat
        if not self._pin(nz, extra, m):
            self._model = m
        return z3.sat

    def _pin(self, nz, extra, m):
        """sat side only: fix the arguments of the transcendental functions to values of a
        model, their results to the true values, and solve for the other inputs"""
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*self.pc)
        s.add(nz)
        s.add(*extra)
        end = _time.time() + 30
        for (name, param, x, y) in self.uf_apps:
            if name == 'sqrt':
                continue
            done = False
            for den in (64, 10**6, None):
                xv = self._mval(m, x)
                if xv is None or _time.time() > end:
                    return False
                if den:
                    xv = Fraction(float(xv)).limit_denominator(den)
                try:
                    v = uf_value(name, param, float(xv))
                except (ValueError, OverflowError, ZeroDivisionError):
                    continue
                s.push()
                s.add(x == z3.RealVal(xv), y == z3.RealVal(Fraction(v)))
                self.stats.queries += 1
                t = _time.time()
                r = s.check()
                self.stats.solver_s += _time.time() - t
                if r == z3.sat:
                    m = s.model()
                    done = True
                    break
                s.pop()
            if not done:
                return False
        self._model = m
        return True

    def model_inputs(self, m):
        out = {}
        for n in self.input_order:
            kind, v = self.inputs[n]
            z = m.eval(v, model_completion=True)
            if kind == 'bool':
                out[n] = bool(z3.is_true(z))
            else:
                if z3.is_algebraic_value(z):
                    z = z.approx(30)
                c = const_of(z)
                if c is None:
                    c = 0
                out[n] = int(c) if kind == 'int' else str(Fraction(c))
        return out

    def sample(self):
        """a concrete instance of the current path (evidence, encoding validation)"""
        n = self.stats.paths
        if len(self.samples) >= self.max_samples and n & (n - 1):
            return
        if self.check() != z3.sat:
            return
        m = self.solver.model()
        obs = {}
        for k, v in self.observed.items():
            if isinstance(v, (Sym, SymBool)):
                z = m.eval(v.z, model_completion=True)
                if z3.is_algebraic_value(z):
                    z = z.approx(20)
                if isinstance(v, SymBool):
                    obs[k] = bool(z3.is_true(z))
                else:
                    c = const_of(z)
                    if c is not None:
                        obs[k] = float(c)
            elif isinstance(v, (bool, _np.bool_)):
                obs[k] = bool(v)
            elif is_num(v):
                v = float(pynum(v))
                if not is_special(v):
                    obs[k] = v
        if any(a[0] != 'sqrt' for a in self.uf_apps):
            obs = {}         # the model need not agree with the real function values
        rec = dict(inputs=self.model_inputs(m), observed=obs)
        if len(self.samples) >= self.max_samples:
            self.samples[-1] = rec
        else:
            self.samples.append(rec)

    # -- driver
    def explore(self, harness):
        global CTX
        prev = CTX
        CTX = self
        try:
            while self.work:
                if self.stats.paths >= self.max_paths:
                    self.incomplete = 'path limit %d reached' % self.max_paths
                    break
                if self.deadline and _time.time() > self.deadline:
                    self.incomplete = 'time budget of the case exhausted'
                    break
                prefix = self.work.pop()
                self.reset_path(prefix)
                self.stats.paths += 1
                try:
                    harness(self)
                    self.sample()
                except (Infeasible, StopPath):
                    pass
                except BudgetExhausted as e:
                    self.incomplete = str(e)
                    break
                except Inconclusive as e:
                    self.inconclusive.append(str(e))
                except SymEscape as e:
                    import traceback
                    self._escape(e, traceback.format_exc())
                except Exception as e:
                    # the code under test raised: a violation if feasible
                    import traceback
                    if self.check(timeout=self.pt) == z3.unsat:
                        continue
                    tb = traceback.format_exc()
                    self._exception(e, tb)
                if len(self.violations) >= 3 or len(self.inconclusive) >= 5:
                    break
        finally:
            CTX = prev
        return self

    def _escape(self, e, tb):
        """the path left the encodable fragment: it is handed to the concrete replay,
        which runs the real code on a solver-chosen member of the path"""
        for _ in range(3):
            r = self.check(timeout=self.pt)
            if r != z3.sat:
                break
            m = self.solver.model()
            self.soft.append(Violation('not encodable: %s' % e, self.model_inputs(m), tb[-1500:]))
            diff = [v != m.eval(v, model_completion=True) for (k, v) in self.inputs.values()
                    if k != 'bool']
            if not diff:
                break
            self.solver.add(z3.Or(*diff))

    def _exception(self, e, tb):
        r = self.check(timeout=self.pt)
        if r == z3.sat:
            m = self.solver.model()
            self.violations.append(Violation(
                'raised %s: %s' % (type(e).__name__, str(e)[:200]),
                self.model_inputs(m), tb[-1500:]))
        else:
            self.inconclusive.append('exception on a path of unknown feasibility: ' + tb[-1500:])


# ---------------------------------------------------------------------------
# concrete context: the same harness on the unpatched code

class ReplayError(Exception):
    pass


class Reproduced(BaseException):
    def __init__(self, label):
        self.label = label


class ConcreteCtx:
    symbolic = False

    def __init__(self, values, slack=0.5):
        self.values = values
        self.slack = slack
        self.rand_count = 0
        self.draws = []
        self.draw_ranges = []
        self.failed = []
        self.reached = []
        self.notes = {}
        self.observed = {}

    def _get(self, name):
        if name not in self.values:
            raise ReplayError('replay has no value for input %r' % name)
        return self.values[name]

    def real(self, name, lo=None, hi=None, **kw):
        v = float(Fraction(self._get(name)))
        return v

    def int(self, name, lo=None, hi=None):
        return int(self._get(name))

    def bool(self, name):
        return bool(self._get(name))

    def flag(self, name):
        return bool(self._get(name))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name)]

    def time(self, name, lo=0, hi=0, base=_dt.datetime(2015, 1, 1), integer=True):
        s = self.int(name) if integer else self.real(name)
        return base + _dt.timedelta(seconds=s)

    def delta(self, name, lo=0, hi=0, integer=True):
        s = self.int(name) if integer else self.real(name)
        return _dt.timedelta(seconds=s)

    def array(self, x, dtype=float):
        return _np.array(x, dtype=dtype)

    def reals(self, name, n, lo=None, hi=None, **kw):
        return self.array([self.real('%s%d' % (name, i)) for i in range(n)])

    def limit_draws(self, n):
        pass

    def c_values(self):
        out = []
        while 'crand_%d' % len(out) in self.values:
            out.append(int(round(Fraction(self.values['crand_%d' % len(out)]))))
        return out

    def crand_used(self):
        if self.c_lib is None:
            raise ReplayError('no feeder of rand()')
        v = self.c_values()
        return [v[i] if i < len(v) else 1073741824 for i in range(self.c_lib.verif_rand_used())]

    c_lib = None

    stream = None

    def seeded(self):
        self.stream = [None, 0]
        from gnome.cy_gnome import cy_helpers
        cy_helpers.srand = self.reseed_c

    c_reset = None

    def reseed_c(self, s):
        if self.c_reset is not None:
            self.c_reset()

    def reseed(self, s):
        if self.stream is not None:
            self.stream = [s, 0]

    def rand_real(self, tag, lo, hi, hi_strict=True):
        if self.stream is not None:
            n = 'seed_%s_%d_%s' % (self.stream[0], self.stream[1], tag)
            self.stream[1] += 1
            u = self.real(n) if n in self.values else ((self.stream[1] * 0.37) % 1 if tag != 'normal' else 0.5)
            v = lo + (hi - lo) * u if tag != 'normal' else 16 * u - 8
            self.draws.append(v)
            self.draw_ranges.append((v, lo, hi))
            return v
        self.rand_count += 1
        n = 'rand_%s_%d' % (tag, self.rand_count)
        v = self.real(n) if n in self.values else lo + (hi - lo) * 0.5
        self.draws.append(v)
        self.draw_ranges.append((v, lo, hi))
        return v

    def rand_int(self, tag, lo, hi):
        self.rand_count += 1
        n = 'rand_%s_%d' % (tag, self.rand_count)
        if n not in self.values:
            return int(lo)
        return self.int(n)

    def observe(self, name, value):
        if hasattr(value, 'shape') and getattr(value, 'shape', ()) != ():
            for ix in _np.ndindex(*value.shape):
                self.observe('%s%s' % (name, list(ix)), value[ix])
            return
        self.observed[name] = value

    def assume(self, cond):
        # float rounding of the solver's rationals may graze an assumption
        pass

    def assume_feasible(self):
        pass

    def reach(self, label):
        self.reached.append(label)

    def ite(self, c, a, b):
        return a if c else b

    def mn(self, a, b):
        return min(a, b)

    def mx(self, a, b):
        return max(a, b)

    def floor(self, x):
        return math.floor(x)

    def secs(self, s):
        return _dt.timedelta(seconds=s)

    def hint(self, name, x):
        pass

    def fn(self, name, x):
        return getattr(math, name)(x)

    def cosd(self, lat):
        return math.cos(math.radians(lat))

    def any(self, conds):
        return any(bool(c) for c in conds)

    def all(self, conds):
        return all(bool(c) for c in conds)

    def implies(self, a, b):
        return (not a) or bool(b)

    def not_(self, a):
        return not bool(a)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def close(self, a, b, tol=1e-9, rel=1e-9):
        a, b = float(a), float(b)
        if is_special(a) or is_special(b):
            return (a != a and b != b) or a == b
        return abs(a - b) <= self.slack * (tol + rel * abs(b))

    def prove(self, cond, label, **kw):
        self.reached.append(label)
        if not bool(cond):
            raise Reproduced(label)

    require = prove

    def sample(self):
        pass


import contextlib


@contextlib.contextmanager
def random_feed(cx):
    """replay: numpy's random source yields the values the solver chose"""
    saved = {}
    R = _np.random
    if os.environ.get('VERIF_CRAND'):
        import ctypes
        cx.c_lib = ctypes.CDLL(os.environ['VERIF_CRAND'])
        v = cx.c_values()
        keep = (ctypes.c_int * max(1, len(v)))(*v)
        cx.c_lib.verif_rand_set(keep, len(v))
        cx.c_reset = lambda: cx.c_lib.verif_rand_set(keep, len(v))

    def draw(tag, lo, hi, size):
        if size is None:
            if isinstance(lo, _np.ndarray) or isinstance(hi, _np.ndarray):
                a, b = _np.broadcast_arrays(lo, hi)
                r = _np.empty(a.shape)
                for ix in _np.ndindex(*a.shape):
                    r[ix] = cx.rand_real(tag, a[ix], b[ix])
                return r
            return cx.rand_real(tag, lo, hi)
        sh = (int(size),) if _np.ndim(size) == 0 else tuple(size)
        r = _np.empty(sh)
        a, b = _np.broadcast_to(lo, sh), _np.broadcast_to(hi, sh)
        for ix in _np.ndindex(*sh):
            r[ix] = cx.rand_real(tag, a[ix], b[ix])
        return r
    def rint(low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if size is None:
            return cx.rand_int('randint', low, high)
        sh = (int(size),) if _np.ndim(size) == 0 else tuple(size)
        r = _np.empty(sh, dtype=int)
        for ix in _np.ndindex(*sh):
            r[ix] = cx.rand_int('randint', low, high)
        return r
    new = {
        'seed': lambda s=None: cx.reseed(s),
        'uniform': lambda low=0.0, high=1.0, size=None: draw('uniform', low, high, size),
        'random': lambda size=None: draw('random', 0.0, 1.0, size),
        'random_sample': lambda size=None: draw('random', 0.0, 1.0, size),
        'rand': lambda *sh: draw('random', 0.0, 1.0, sh if sh else None),
        'randint': rint,
        'normal': lambda loc=0.0, scale=1.0, size=None: loc + scale * draw('normal', -8.0, 8.0, size),
        'standard_normal': lambda size=None: draw('normal', -8.0, 8.0, size),
        'randn': lambda *sh: draw('normal', -8.0, 8.0, sh if sh else None),
    }
    for k, f in new.items():
        saved[k] = getattr(R, k)
        setattr(R, k, f)
    try:
        yield
    finally:
        for k, f in saved.items():
            setattr(R, k, f)
