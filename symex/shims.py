"""Lets the imported gnome modules run on symbolic values.

The modules under test are imported from the current tree, unmodified; then the
*names* they use for numpy, math, datetime, float, int, round ... are bound to look-alikes
that accept symbolic values as well.  No function of gnome is replaced here.
"""
import builtins
import copy as _copy
import datetime as _dt
import math as _math
import numbers
import random as _random
import sys
import time as _time
import types

import numpy as _np

from . import core, symnp
from .core import Sym, SymBool, SymTime, SymDelta, SymEscape, apply_uf, ufs_sqrt

PREFIXES = ('gnome', 'nucos', 'gridded')

# ---------------------------------------------------------------------------
# math


def _m1(name, f):
    real = getattr(_math, name)

    def g(x, *a):
        if isinstance(x, _np.ndarray) and x.size == 1:
            x = symnp.raw(x).ravel()[0]
        if isinstance(x, (Sym, SymBool)):
            return f(x, *a)
        return real(x, *a)
    g.__name__ = name
    return g


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        d = self.__dict__
        for n in dir(_math):
            if not n.startswith('__'):
                d[n] = getattr(_math, n)
        U = symnp.U1
        for n, u in (('exp', 'exp'), ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'),
                     ('atan', 'arctan'), ('asin', 'arcsin'), ('acos', 'arccos'),
                     ('tanh', 'tanh'), ('log10', 'log10'), ('log2', 'log2'),
                     ('log1p', 'log1p'), ('expm1', 'expm1'), ('fabs', 'absolute'),
                     ('radians', 'deg2rad'), ('degrees', 'rad2deg')):
            d[n] = _m1(n, U[u])

        def log(x, *b):
            if b:
                return apply_uf('log', x) / _math.log(b[0])
            if isinstance(x, Sym) and bool(x <= 0):
                raise ValueError('math domain error')
            return apply_uf('log', x)
        d['log'] = _m1('log', log)

        def sqrt(x):
            if isinstance(x, Sym) and bool(x < 0):
                raise ValueError('math domain error')
            return ufs_sqrt(x)
        d['sqrt'] = _m1('sqrt', sqrt)
        d['erf'] = _m1('erf', lambda x: apply_uf('erf', x))
        d['erfc'] = _m1('erfc', lambda x: apply_uf('erfc', x))
        d['floor'] = _m1('floor', lambda x: x.__floor__())
        d['ceil'] = _m1('ceil', lambda x: x.__ceil__())
        d['trunc'] = _m1('trunc', lambda x: x.__trunc__())
        d['isnan'] = _m1('isnan', lambda x: False)
        d['isinf'] = _m1('isinf', lambda x: False)
        d['isfinite'] = _m1('isfinite', lambda x: True)

        def two(n, f):
            real = getattr(_math, n)

            def g(a, b, *r, **k):
                if symnp.is_sym(a) or symnp.is_sym(b):
                    return f(a, b, *r, **k)
                return real(a, b, *r, **k)
            d[n] = g
        two('pow', lambda a, b: symnp.U2['power'](a, b))
        two('hypot', symnp._hypot)
        two('atan2', symnp._atan2)
        two('fmod', symnp.U2['fmod'])
        two('copysign', symnp.U2['copysign'])
        two('isclose', lambda a, b, rel_tol=1e-9, abs_tol=0.0:
            abs(a - b) <= symnp._max2(rel_tol * symnp._max2(abs(a), abs(b)), abs_tol))

        def modf(x):
            if isinstance(x, Sym):
                t = Sym(core.trunc_z(x.z)) * 1.0
                return x - t, t
            return _math.modf(x)
        d['modf'] = modf

        def fsum(xs):
            xs = list(xs)
            if any(symnp.is_sym(x) for x in xs):
                return builtins.sum(xs)
            return _math.fsum(xs)
        d['fsum'] = fsum


math_shim = MathShim()

# ---------------------------------------------------------------------------
# datetime


class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_dt.datetime, SymTime))

    def __subclasscheck__(cls, o):
        return issubclass(o, _dt.datetime)

    def __getattr__(cls, n):
        return getattr(_dt.datetime, n)

    def __eq__(cls, o):
        return o is cls or o is _dt.datetime

    def __hash__(cls):
        return hash(_dt.datetime)


class DatetimeShim(metaclass=_DTMeta):
    def __new__(cls, *a, **k):
        return _dt.datetime(*a, **k)

    @staticmethod
    def fromtimestamp(s, tz=None):
        if isinstance(s, Sym):
            return SymTime(s)
        return _dt.datetime.fromtimestamp(s, tz)

    @staticmethod
    def utcfromtimestamp(s):
        if isinstance(s, Sym):
            return SymTime(s)
        return _dt.datetime.utcfromtimestamp(s)


class _TDMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_dt.timedelta, SymDelta))

    def __subclasscheck__(cls, o):
        return issubclass(o, _dt.timedelta)

    def __getattr__(cls, n):
        return getattr(_dt.timedelta, n)

    def __eq__(cls, o):
        return o is cls or o is _dt.timedelta

    def __hash__(cls):
        return hash(_dt.timedelta)


_TDF = (('days', 86400), ('seconds', 1), ('microseconds', core.Fraction(1, 10**6)),
        ('milliseconds', core.Fraction(1, 1000)), ('minutes', 60), ('hours', 3600),
        ('weeks', 604800))


class TimedeltaShim(metaclass=_TDMeta):
    def __new__(cls, *a, **k):
        vals = list(a) + list(k.values())
        if not any(isinstance(v, (Sym, SymBool, _np.ndarray)) for v in vals):
            return _dt.timedelta(*a, **k)
        kk = dict(k)
        for (n, _), v in zip(_TDF, a):
            kk[n] = v
        s = 0
        for n, f in _TDF:
            if n in kk:
                v = kk[n]
                if isinstance(v, _np.ndarray):
                    v = v.item()
                    if not isinstance(v, Sym):
                        v = core.Fraction(v)
                s = s + v * f
        return SymDelta(s) if isinstance(s, Sym) else _dt.timedelta(seconds=float(s))


class DatetimeModShim(types.ModuleType):
    def __init__(self):
        super().__init__('datetime')
        for n in dir(_dt):
            if not n.startswith('__'):
                self.__dict__[n] = getattr(_dt, n)
        self.datetime = DatetimeShim
        self.timedelta = TimedeltaShim


datetime_shim = DatetimeModShim()


# ---------------------------------------------------------------------------
# time

class TimeModShim(types.ModuleType):
    """time.mktime / gmtime for symbolic times (the sandbox and the model use UTC)"""
    def __init__(self):
        super().__init__('time')
        for n in dir(_time):
            if not n.startswith('__'):
                self.__dict__[n] = getattr(_time, n)

        def mktime(tt):
            t = tt[0] if len(tt) else None
            if isinstance(t, SymTime):
                return core.Sym(core.floor_z(t.s.z)) * 1.0 if isinstance(t.s, Sym) else float(t.s)
            return _time.mktime(tt)
        self.mktime = mktime

        def broken(real):
            def g(s=None):
                if isinstance(s, Sym):
                    return core.SymTimeTuple(SymTime(s))
                return real(s) if s is not None else real()
            return g
        self.localtime = broken(_time.localtime)
        self.gmtime = broken(_time.gmtime)


time_shim = TimeModShim()


# ---------------------------------------------------------------------------
# builtins

class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, Sym) and not o.is_int)

    def __subclasscheck__(cls, o):
        return issubclass(o, float)

    def __getattr__(cls, n):
        return getattr(float, n)

    def __eq__(cls, o):
        return o is cls or o is float or (isinstance(o, _np.dtype) and o == _np.dtype(float))

    def __hash__(cls):
        return hash(float)


class FloatB(metaclass=_FloatMeta):
    dtype = _np.dtype(float)

    def __new__(cls, x=0.0):
        if isinstance(x, _np.ndarray) and x.size == 1 and symnp.has_sym(x):
            x = symnp.raw(x).ravel()[0]
        if isinstance(x, SymBool):
            x = x._num()
        if isinstance(x, Sym):
            return x * 1.0 if x.is_int else x
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or (isinstance(o, Sym) and o.is_int)

    def __subclasscheck__(cls, o):
        return issubclass(o, int)

    def __getattr__(cls, n):
        return getattr(int, n)

    def __eq__(cls, o):
        return o is cls or o is int or (isinstance(o, _np.dtype) and o == _np.dtype(int))

    def __hash__(cls):
        return hash(int)


class IntB(metaclass=_IntMeta):
    dtype = _np.dtype(int)

    def __new__(cls, x=0, *a):
        if isinstance(x, _np.ndarray) and x.size == 1 and symnp.has_sym(x):
            x = symnp.raw(x).ravel()[0]
        if isinstance(x, SymBool):
            x = x._num()
        if isinstance(x, Sym):
            return x if x.is_int else Sym(core.trunc_z(x.z))
        return int(x, *a)


class _BoolMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (bool, SymBool))

    def __subclasscheck__(cls, o):
        return issubclass(o, bool)

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)


def _minmax(real, pick):
    def g(*a, **k):
        if k.get('key') is not None:
            return real(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if any(symnp.is_sym(x) for x in xs) and all(
                symnp.is_sym(x) or core.is_num(x) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                # same tie rule as the builtin: first wins
                r = pick(r, x)
            return r
        if len(a) == 1:
            return real(xs, **k)
        return real(*a, **k)
    return g


def _bmin(r, x):
    return core.ite(x < r, x, r) if not core.is_special(x if not symnp.is_sym(x) else 0.0) \
        and not core.is_special(r if not symnp.is_sym(r) else 0.0) else (x if bool(x < r) else r)


def _bmax(r, x):
    return core.ite(x > r, x, r) if not core.is_special(x if not symnp.is_sym(x) else 0.0) \
        and not core.is_special(r if not symnp.is_sym(r) else 0.0) else (x if bool(x > r) else r)


min_shim = _minmax(builtins.min, _bmin)
max_shim = _minmax(builtins.max, _bmax)


def abs_shim(x):
    return abs(x)


def range_shim(*a):
    return range(*[x.__index__() if isinstance(x, Sym) else x for x in a])


def round_shim(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


_bisect_mod = None


def isinstance_shim(o, t):
    """type(np.ndarray) style tuples with the real builtin classes"""
    if isinstance(o, (Sym, SymBool, SymTime, SymDelta)):
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, tuple):
                if isinstance_shim(o, x):
                    return True
            elif isinstance(o, Sym) and x in (float, _np.float64, _np.floating) and not o.is_int:
                return True
            elif isinstance(o, Sym) and x in (int, _np.integer) and o.is_int:
                return True
            elif isinstance(o, Sym) and x is _np.number:
                return True
            elif isinstance(o, SymBool) and x in (bool, int):
                return True
            elif isinstance(o, SymTime) and x in (_dt.datetime, _dt.date):
                return True
            elif isinstance(o, SymDelta) and x is _dt.timedelta:
                return True
        return isinstance(o, t)
    if isinstance(o, symnp.StructArr):
        return any(x is _np.ndarray for x in (t if isinstance(t, tuple) else (t,))) or isinstance(o, t)
    return isinstance(o, t)


numbers.Real.register(Sym)

# ---------------------------------------------------------------------------

INJECT = {'float': FloatB, 'int': IntB, 'min': min_shim, 'max': max_shim,
          'range': range_shim, 'isinstance': isinstance_shim}

EXTRA = {}       # id(real object) -> (real, shim): registered by the encoders


def register(real, shim):
    EXTRA[id(real)] = (real, shim)


def _table():
    t = {}

    def put(a, b):
        t[id(a)] = (a, b)
    put(_np, symnp.numpy_shim)
    put(_np.random, symnp.numpy_shim.random)
    put(_math, math_shim)
    put(_dt, datetime_shim)
    put(_dt.datetime, DatetimeShim)
    put(_dt.timedelta, TimedeltaShim)
    put(_time, time_shim)
    put(_time.mktime, time_shim.mktime)
    for n in dir(_math):
        v = getattr(_math, n)
        if callable(v) and not n.startswith('__') and getattr(math_shim, n) is not v:
            put(v, getattr(math_shim, n))
    for n in dir(_np):
        if n.startswith('_') or n in ('bool', 'int', 'float'):
            continue
        v = getattr(_np, n)
        if n in symnp.numpy_shim.__dict__ and callable(v):
            s = symnp.numpy_shim.__dict__[n]
            if s is not v and not isinstance(v, type):
                put(v, s)
    for k, (a, b) in EXTRA.items():
        t[k] = (a, b)
    return t


NAMESPACES = []      # of encoded modules


def apply_ns(d):
    NAMESPACES.append(d)


def apply(prefixes=PREFIXES):
    """bind the shims in every loaded module of the code under test"""
    t = _table()
    n = 0
    for d in NAMESPACES:
        for k, v in list(d.items()):
            hit = t.get(id(v))
            if hit is not None and hit[0] is v:
                d[k] = hit[1]
        for k, v in INJECT.items():
            d.setdefault(k, v)
    for name, mod in list(sys.modules.items()):
        if mod is None or name.split('.')[0] not in prefixes:
            continue
        n += _bind(mod, t)
    if not any(isinstance(f, _Late) for f in sys.meta_path):
        sys.meta_path.insert(0, _Late(t, prefixes))
    return n


def _bind(mod, t):
    n = 0
    d = getattr(mod, '__dict__', None)
    if d is None:
        return n
    f = getattr(mod, '__file__', None) or ''
    for k, v in list(d.items()):
        hit = t.get(id(v))
        if hit is not None and hit[0] is v:
            try:
                d[k] = hit[1]
                n += 1
            except TypeError:
                pass
    if f.endswith('.py'):
        for k, v in INJECT.items():
            if k not in d:
                d[k] = v
    return n


class _Late:
    """modules of the code under test that are loaded later on"""

    def __init__(self, t, prefixes):
        self.t, self.prefixes = t, prefixes

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] not in self.prefixes:
            return None
        for f in sys.meta_path:
            if f is self or not hasattr(f, 'find_spec'):
                continue
            spec = f.find_spec(name, path, target)
            if spec is None:
                continue
            ex, t = getattr(spec.loader, 'exec_module', None), self.t
            if ex is not None:
                def exec_module(mod):
                    ex(mod)
                    _bind(mod, t)
                try:
                    spec.loader.exec_module = exec_module
                except AttributeError:
                    pass
            return spec
        return None
