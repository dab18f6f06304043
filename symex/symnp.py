"""numpy for symbolic values.

SymArray is an ndarray subclass.  Float data live in an object array whose
elements are Python floats or Sym; integer and bool data keep a native dtype until
a symbolic value enters.  Comparisons give arrays of SymBool; they are decided
(forked) only when used as an index or a truth value, and merged (if-then-else)
in where/clip/minimum/maximum and masked scalar assignment.
"""
import os
import math
import types
import numpy as np

from . import core
from .core import (Sym, SymBool, SymEscape, SymTime, SymDelta, ite, mkbool,
                   boolz, apply_uf, ufs_sqrt, is_num, pynum, lift)
from .structarr import StructArr, StructRec, symbolic_layout
import z3

_real_ndarray = np.ndarray


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def is_floaty(dtype):
    if dtype is None:
        return False
    if dtype is float:
        return True
    try:
        d = np.dtype(dtype)
    except TypeError:
        return False
    return d.kind == 'f'


def is_inty(dtype):
    if dtype is int:
        return True
    try:
        return np.dtype(dtype).kind in 'iu'
    except TypeError:
        return False


def is_booly(dtype):
    if dtype is bool:
        return True
    try:
        return np.dtype(dtype).kind == 'b'
    except TypeError:
        return False


class _VDtype:
    pass


def _obj_kind(a):
    """virtual kind of an object array"""
    kind = 'b'
    any_ = False
    for e in np.asarray(a, dtype=object).ravel() if False else _real_ndarray.ravel(a.view(_real_ndarray)):
        any_ = True
        if isinstance(e, (bool, np.bool_, SymBool)):
            continue
        if isinstance(e, Sym):
            if e.is_int:
                if kind == 'b':
                    kind = 'i'
            else:
                kind = 'f'
        elif isinstance(e, (int, np.integer)):
            if kind == 'b':
                kind = 'i'
        elif isinstance(e, (float, np.floating)):
            kind = 'f'
        else:
            return 'O'
    return kind if any_ else 'f'


def _flt(e):
    if isinstance(e, (int, np.integer, bool, np.bool_)):
        return float(e)
    if isinstance(e, Sym) and e.is_int:
        return Sym(z3.ToReal(e.z))
    return e


def _float_if_needed(a, val):
    """integers stored into a float array become floats"""
    if isinstance(val, (float, np.floating)) or (isinstance(val, Sym) and not val.is_int):
        return val
    if isinstance(val, (int, np.integer, bool, np.bool_, Sym)):
        return _flt(val) if _obj_kind(a) == 'f' else val
    if isinstance(val, (list, tuple, np.ndarray)):
        if isinstance(val, np.ndarray) and _real_ndarray.dtype.__get__(val).kind == 'f':
            return val
        try:
            o = np.array(val.view(_real_ndarray) if isinstance(val, np.ndarray) else val, dtype=object)
        except ValueError:
            return val
        flat = o.ravel()
        if o.size and any(isinstance(e, (int, np.integer, bool, np.bool_)) or (isinstance(e, Sym) and e.is_int)
                          for e in flat) and _obj_kind(a) == 'f':
            r = np.empty(o.shape, dtype=object)
            rf = r.reshape(-1)
            for i, e in enumerate(flat):
                rf[i] = _flt(e)
            return r
    return val


class _ArrMeta(type):
    """type(x) == np.ndarray holds for the stand-in too"""
    def __eq__(cls, o):
        return o is cls or o is _real_ndarray

    def __hash__(cls):
        return hash(_real_ndarray)


class SymArray(np.ndarray, metaclass=_ArrMeta):
    __array_priority__ = 900

    def __new__(cls, a):
        return np.asarray(a).view(cls)

    # ---- dtype as the code under test would see it
    @property
    def dtype(self):
        d = _real_ndarray.dtype.__get__(self)
        if d == object:
            k = _obj_kind(self)
            if k == 'f':
                return np.dtype('float64')
            if k == 'i':
                return np.dtype('int64')
            if k == 'b':
                return np.dtype('bool')
        return d

    @property
    def rdtype(self):
        return _real_ndarray.dtype.__get__(self)

    @property
    def nbytes(self):
        return 8 * self.size

    def base_view(self):
        return self.view_as(_real_ndarray)

    def view_as(self, t):
        return _real_ndarray.view(self, t)

    # ---- protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return function_dispatch(func, types_, args, kwargs)

    # ---- indexing
    def __getitem__(self, idx):
        r = _real_ndarray.__getitem__(self, fix_index(idx))
        return r

    def __setitem__(self, idx, val):
        if self.rdtype == object:
            val = _float_if_needed(self, val)
        m = mask_of(idx)
        if m is not None and masked_assign(self, m, val):
            return
        idx = fix_index(idx)
        if self.rdtype != object and has_sym(val):
            if self.rdtype.kind == 'f':
                raise SymEscape('symbolic value stored into a native float array')
        if isinstance(val, np.ndarray) and val.dtype == object and self.rdtype.kind in 'iub':
            pass
        if self.rdtype == object and isinstance(val, np.ndarray):
            val = val.view(_real_ndarray)
        _real_ndarray.__setitem__(self, idx, val)

    def __bool__(self):
        if self.size == 1:
            return bool(_real_ndarray.ravel(self.view_as(_real_ndarray))[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def __contains__(self, x):
        return bool((self == x).any())

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    # ---- methods
    def astype(self, t, *a, **k):
        return astype(self, t)

    def view(self, *a, **k):
        t = k.get('dtype', a[0] if a else None)
        if isinstance(t, type) and issubclass(t, np.ndarray):
            return _real_ndarray.view(self, t)
        if t is None:
            return _real_ndarray.view(self)
        if self.rdtype == object:
            d = np.dtype(t)
            if d.names and len(d.names) == 3:
                return RecView(self.reshape((-1, 3)), d)
            if d.kind == 'f':
                return self
            if d.kind == 'b':
                return wrap(vec1(lambda e: e if isinstance(e, (bool, SymBool)) else e != 0, self))
            raise SymEscape('view of symbolic data as %s' % d)
        return wrap(_real_ndarray.view(raw(self), *a, **k))

    def sum(self, axis=None, dtype=None, out=None, **k):
        return wrap(reduce_('add', self, axis, **k))

    def cumsum(self, axis=None, dtype=None, out=None):
        return np.cumsum(self, axis=axis)

    def prod(self, axis=None, **k):
        return wrap(reduce_('multiply', self, axis, **k))

    def min(self, axis=None, out=None, **k):
        return wrap(reduce_('minimum', self, axis, **k))

    def max(self, axis=None, out=None, **k):
        return wrap(reduce_('maximum', self, axis, **k))

    def any(self, axis=None, out=None, **k):
        return wrap(reduce_('logical_or', self, axis, **k))

    def all(self, axis=None, out=None, **k):
        return wrap(reduce_('logical_and', self, axis, **k))

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        if n == 0:
            return math.nan
        return self.sum(axis=axis) / n

    def clip(self, a_min=None, a_max=None, out=None, **k):
        a_min = k.get('min', a_min)
        a_max = k.get('max', a_max)
        return clip(self, a_min, a_max, out=out)

    def round(self, decimals=0, out=None):
        return wrap(vec1(lambda e: _rnd(e, decimals), self, out))

    def nonzero(self):
        return nonzero(self)

    def argmin(self, axis=None, out=None):
        return _argext(self, axis, False)

    def argmax(self, axis=None, out=None):
        return _argext(self, axis, True)

    def tolist(self):
        return _real_ndarray.tolist(self.view_as(_real_ndarray))

    def item(self, *a):
        return _real_ndarray.item(self.view_as(_real_ndarray), *a)

    def copy(self, order='C'):
        return _real_ndarray.copy(self)

    def resize(self, new_shape, refcheck=True):
        _real_ndarray.resize(self, new_shape, refcheck=False)

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side)

    def fill(self, v):
        self[...] = v

    def dot(self, o):
        return np.dot(self, o)

    def ptp(self, axis=None):
        return self.max(axis=axis) - self.min(axis=axis)

    def std(self, axis=None, **k):
        m = self.mean(axis=axis)
        return sqrt(((self - m) ** 2).mean(axis=axis))

    def put(self, ind, v, mode='raise'):
        _real_ndarray.put(self, fix_index(ind), v)

    def take(self, ind, axis=None, **k):
        return _real_ndarray.take(self, fix_index(ind), axis=axis)

    def compress(self, cond, axis=None, out=None):
        return self[conc_mask(cond)] if axis is None or axis == 0 else _fail('compress')

    def __reduce__(self):
        raise SymEscape('pickling of a symbolic array')

    def __deepcopy__(self, memo):
        return self.copy()

    def tobytes(self, *a, **k):
        raise SymEscape('tobytes')


def _fail(m):
    raise SymEscape(m)


class RecView:
    """(N,3) object array seen as an array of (long, lat, z) records"""
    def __init__(self, arr, d):
        self.arr = arr
        self.dt = d
        self.dtype = d

    def __len__(self):
        return len(self.arr)

    @property
    def shape(self):
        return (len(self.arr),)

    @property
    def size(self):
        return len(self.arr)

    def reshape(self, *a):
        return self

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.arr[:, self.dt.names.index(k)]
        if isinstance(k, slice) or is_masklike(k):
            return RecView(self.arr[k], self.dt)
        return Rec(self.arr[k], self.dt)

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.arr[:, self.dt.names.index(k)] = v
        else:
            if isinstance(v, RecView):
                v = v.arr
            self.arr[k] = v

    def view(self, *a, **k):
        t = k.get('dtype', a[0] if a else None)
        d = np.dtype(t)
        if d.names:
            return self
        return self.arr

    def copy(self):
        return RecView(self.arr.copy(), self.dt)

    def astype(self, *a, **k):
        return self

    def fill(self, v):
        self.arr[:] = v


class Rec:
    def __init__(self, row, d):
        self.row = row
        self.d = d

    def __getitem__(self, k):
        return self.row[self.d.names.index(k) if isinstance(k, str) else k]

    def __setitem__(self, k, v):
        self.row[self.d.names.index(k) if isinstance(k, str) else k] = v

    def __len__(self):
        return 3

    def __iter__(self):
        return iter(self.row)


def wrap(r):
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if type(r) is np.ndarray:
        if r.ndim == 0:
            return r[()]
        return r.view(SymArray)
    if isinstance(r, SymArray) and r.ndim == 0:
        return r.view_as(_real_ndarray)[()]
    return r


def has_sym(x):
    if isinstance(x, (Sym, SymBool, SymTime, SymDelta, StructArr)):
        return True
    if isinstance(x, np.ndarray):
        if _real_ndarray.dtype.__get__(x) == object:
            return any(isinstance(e, (Sym, SymBool)) for e in _real_ndarray.ravel(x.view(_real_ndarray) if type(x) is not _real_ndarray else x))
        return False
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def raw(x):
    """SymArray -> plain ndarray view, others unchanged"""
    if isinstance(x, SymArray):
        return _real_ndarray.view(x, _real_ndarray)
    return x


def oarr(x):
    """anything -> plain object ndarray (elements Python objects)"""
    if isinstance(x, np.ndarray):
        a = raw(x)
        if a.dtype == object:
            return a
        return a.astype(object)
    if isinstance(x, (Sym, SymBool, SymTime, SymDelta)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        return _seq_to_obj(x)
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _shape_of(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, RecView):
        return x.arr.shape
    if isinstance(x, (list, tuple, range)) or (hasattr(x, '__len__') and hasattr(x, '__getitem__')
                                               and not isinstance(x, (str, bytes, dict, Sym, SymBool, np.generic))):
        n = len(x)
        if n == 0:
            return (0,)
        shs = [_shape_of(e) for e in x]
        if any(s != shs[0] for s in shs):
            raise ValueError('setting an array element with a sequence. The '
                             'requested array has an inhomogeneous shape')
        return (n,) + shs[0]
    return ()


def _seq_to_obj(x):
    sh = _shape_of(x)
    a = np.empty(sh, dtype=object)
    _fill(a, x, sh)
    return a


def _fill(a, x, sh):
    if len(sh) == 0:
        a[()] = x if not isinstance(x, np.ndarray) else raw(x)[()]
        return
    for i in range(sh[0]):
        e = x[i]
        if len(sh) == 1:
            if isinstance(e, np.ndarray):
                e = raw(e)[()]
            a[i] = e
        else:
            if isinstance(e, np.ndarray):
                a[i] = oarr(e)
            else:
                _fill(a[i], e, sh[1:])


# ---------------------------------------------------------------------------
# index handling

def is_masklike(m):
    if isinstance(m, np.ndarray):
        d = _real_ndarray.dtype.__get__(m)
        if d == bool:
            return True
        if d == object and m.size:
            return all(isinstance(e, (bool, np.bool_, SymBool)) for e in raw(m).ravel())
    if isinstance(m, list) and m:
        return all(isinstance(e, (bool, np.bool_, SymBool)) for e in m)
    return False


def conc_mask(m):
    """decide every element (forks)"""
    a = oarr(m)
    r = np.empty(a.shape, dtype=bool)
    fr, fa = r.ravel(), a.ravel()
    out = [bool(e) for e in fa]
    return np.array(out, dtype=bool).reshape(a.shape)


def fix_index(idx):
    if isinstance(idx, tuple):
        return tuple(fix_index1(i) for i in idx)
    return fix_index1(idx)


def fix_index1(i):
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, Sym):
        return i.__index__()
    if isinstance(i, np.ndarray):
        d = _real_ndarray.dtype.__get__(i)
        if d == object:
            if i.size == 0:
                return raw(i).astype(int)
            if is_masklike(i):
                return conc_mask(i)
            return np.array([int(e.__index__()) for e in raw(i).ravel()],
                            dtype=int).reshape(i.shape)
        return raw(i)
    if isinstance(i, slice):
        return slice(*[x.__index__() if isinstance(x, Sym) else x
                       for x in (i.start, i.stop, i.step)])
    if isinstance(i, list):
        if has_sym(i):
            return fix_index1(oarr(i))
    return i


def mask_of(idx):
    """the mask if idx is a mask with undecided elements"""
    if isinstance(idx, np.ndarray) and _real_ndarray.dtype.__get__(idx) == object \
            and is_masklike(idx):
        return idx
    return None


def masked_assign(a, m, val):
    """a[m] = scalar, merged; False if it has to fork"""
    if a.rdtype != object or m.shape != a.shape:
        return False
    if isinstance(val, np.ndarray):
        if val.ndim != 0:
            return False
        val = raw(val)[()]
    if isinstance(val, (list, tuple)):
        return False
    if not (is_num(val) or isinstance(val, (Sym, SymBool))):
        return False
    if is_num(val) and core.is_special(pynum(val)):
        return False
    fa = raw(a)
    for ix in np.ndindex(*a.shape):
        c = raw(m)[ix]
        old = fa[ix]
        if isinstance(old, float) and core.is_special(old):
            if bool(c):
                fa[ix] = val
            continue
        fa[ix] = ite(c, val, old)
    return True


# ---------------------------------------------------------------------------
# element functions

def _cmp(op):
    import operator
    return {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt,
            'ge': operator.ge, 'eq': operator.eq, 'ne': operator.ne}[op]


def _land(a, b):
    if is_sym(a) or is_sym(b):
        return mkbool(z3.And(boolz(a), boolz(b)))
    return bool(a) and bool(b)


def _lor(a, b):
    if is_sym(a) or is_sym(b):
        return mkbool(z3.Or(boolz(a), boolz(b)))
    return bool(a) or bool(b)


def _lxor(a, b):
    if is_sym(a) or is_sym(b):
        return mkbool(z3.Xor(boolz(a), boolz(b)))
    return bool(a) != bool(b)


def _lnot(a):
    if is_sym(a):
        return mkbool(z3.Not(boolz(a)))
    return not bool(a)


def _min2(a, b):
    if not is_sym(a) and not is_sym(b):
        if a != a or b != b:
            return math.nan
        return a if a <= b else b
    return _pick(a, b, 'le')


def _max2(a, b):
    if not is_sym(a) and not is_sym(b):
        if a != a or b != b:
            return math.nan
        return a if a >= b else b
    return _pick(a, b, 'ge')


def _pick(a, b, op):
    if isinstance(a, SymBool):
        a = a._num()
    if isinstance(b, SymBool):
        b = b._num()
    for x, y in ((a, b), (b, a)):
        if not is_sym(x) and isinstance(pynum(x), float) and core.is_special(pynum(x)):
            x = pynum(x)
            if x != x:
                return x
            win = (x > 0) == (op == 'ge')
            return x if win else y
    c = _cmp(op)(a, b)
    return ite(c, a, b)


def _arith(op):
    import operator
    f = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
         'floordiv': operator.floordiv, 'mod': operator.mod}.get(op)
    if f is not None and op in ('add', 'sub', 'mul'):
        def g(a, b):
            if isinstance(a, np.bool_):
                a = bool(a)
            if isinstance(b, np.bool_):
                b = bool(b)
            return f(a, b)
        return g
    if op == 'div':
        def div(a, b):
            if is_sym(a) or is_sym(b):
                if isinstance(a, SymBool):
                    a = a._num()
                if isinstance(b, SymBool):
                    b = b._num()
                return a / b
            if isinstance(a, (SymTime, SymDelta)) or isinstance(b, (SymTime, SymDelta)):
                return a / b
            if not (is_num(a) and is_num(b)):
                return a / b
            with np.errstate(all='ignore'):
                return float(np.float64(a) / np.float64(b))
        return div
    if op in ('floordiv', 'mod'):
        def fd(a, b):
            if is_sym(a) or is_sym(b):
                return f(a, b)
            with np.errstate(all='ignore'):
                r = f(np.asarray(a), np.asarray(b))
                return r.item() if hasattr(r, 'item') else r
        return fd
    if op == 'pow':
        def pw(a, b):
            if is_sym(a) or is_sym(b):
                if not is_sym(a):
                    return Sym(lift(a)) ** b if not core.is_special(pynum(a)) else _fail('pow inf')
                return a ** b
            with np.errstate(all='ignore'):
                r = np.power(np.asarray(a, dtype=None), np.asarray(b))
                return r.item()
        return pw
    if op == 'and':
        return lambda a, b: _land(a, b) if (isinstance(a, (SymBool, bool, np.bool_)) and
                                            isinstance(b, (SymBool, bool, np.bool_))) else _bitand(a, b)
    if op == 'or':
        return lambda a, b: _lor(a, b) if (isinstance(a, (SymBool, bool, np.bool_)) and
                                           isinstance(b, (SymBool, bool, np.bool_))) else _bitor(a, b)
    if op == 'xor':
        return lambda a, b: _lxor(a, b) if (isinstance(a, (SymBool, bool, np.bool_)) and
                                            isinstance(b, (SymBool, bool, np.bool_))) else _fail('xor')
    raise SymEscape(op)


def _bitand(a, b):
    if is_sym(a) or is_sym(b):
        a = a.__index__() if is_sym(a) else int(a)
        b = b.__index__() if is_sym(b) else int(b)
    return int(a) & int(b)


def _bitor(a, b):
    if is_sym(a) or is_sym(b):
        a = a.__index__() if is_sym(a) else int(a)
        b = b.__index__() if is_sym(b) else int(b)
    return int(a) | int(b)


def elementwise(op, a, b):
    """used by Sym when the other operand is an ndarray"""
    f = _cmp(op) if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') else _arith(op)
    return wrap(vec2(f, a, b))


def vec1(f, x, out=None):
    if isinstance(x, (Sym, SymBool)) or is_num(x) and not isinstance(x, np.ndarray):
        r = f(x)
        return r
    a = oarr(x)
    r = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        r[ix] = f(a[ix])
    r = _tighten(r)
    return _store(r, out)


def vec2(f, x, y, out=None):
    sx = not isinstance(x, (np.ndarray, list, tuple))
    sy = not isinstance(y, (np.ndarray, list, tuple))
    if sx and sy:
        if isinstance(x, np.generic) and not isinstance(x, (np.datetime64, np.timedelta64)):
            x = x.item()
        if isinstance(y, np.generic) and not isinstance(y, (np.datetime64, np.timedelta64)):
            y = y.item()
        return _store(f(x, y), out) if out is not None else f(x, y)
    a, b = np.broadcast_arrays(oarr(x), oarr(y))
    r = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        r[ix] = f(a[ix], b[ix])
    r = _tighten(r)
    return _store(r, out)


def _tighten(r):
    """an all-bool result becomes a native bool array"""
    if r.size and all(type(e) in (bool, np.bool_) for e in r.ravel()):
        return r.astype(bool)
    if r.size and all(type(e) is int for e in r.ravel()):
        return r.astype(np.int64)
    return r


def _store(r, out):
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    if isinstance(r, np.ndarray):
        o = raw(out)
        if o.dtype != object and r.dtype == object and has_sym(r):
            if o.dtype.kind == 'f':
                raise SymEscape('symbolic result into a native float array')
            for ix in np.ndindex(*r.shape):
                o[ix] = r[ix]
        else:
            o[...] = r
    else:
        raw(out)[...] = r
    return out


def _rnd(e, n=0):
    if isinstance(e, Sym):
        if e.is_int:
            return e
        if n == 0:
            return Sym(z3.ToReal(core.rint_z(e.z)))
        # finer than the precision of the numbers themselves
        return e if n >= 12 else e.__round__(n)
    return float(np.round(pynum(e), n)) if isinstance(pynum(e), float) else e


def _floor(e):
    if isinstance(e, Sym):
        return e if e.is_int else Sym(z3.ToReal(core.floor_z(e.z)))
    return float(np.floor(pynum(e)))


def _ceil(e):
    if isinstance(e, Sym):
        return e if e.is_int else Sym(z3.ToReal(-core.floor_z(-e.z)))
    return float(np.ceil(pynum(e)))


def _trunc(e):
    if isinstance(e, Sym):
        return e if e.is_int else Sym(z3.ToReal(core.trunc_z(e.z)))
    return float(np.trunc(pynum(e)))


def _isnan(e):
    if is_sym(e):
        return False
    return pynum(e) != pynum(e)


def _isinf(e):
    return False if is_sym(e) else pynum(e) in (math.inf, -math.inf)


def _isfinite(e):
    return True if is_sym(e) else not core.is_special(pynum(e))


def _sign(e):
    if isinstance(e, Sym):
        return ite(e > 0, 1.0, ite(e < 0, -1.0, 0.0))
    return float(np.sign(pynum(e)))


def _abs(e):
    return abs(e) if not isinstance(e, SymBool) else e._num()


def _square(e):
    return e * e


DEG = math.pi / 180


def _uf(name):
    return lambda e: apply_uf(name, e)


def _hypot(a, b):
    if not is_sym(a) and not is_sym(b):
        return math.hypot(a, b)
    return ufs_sqrt(a * a + b * b)


def _ratio(y, x):
    """y / x, a plain number where it is the same for all values"""
    c = core.const_ratio(y, x)
    return y / x if c is None else c


def _atan2(y, x):
    if not is_sym(y) and not is_sym(x):
        return math.atan2(pynum(y), pynum(x))
    if bool(x > 0):
        return apply_uf('atan', _ratio(y, x))
    if bool(x < 0):
        r = apply_uf('atan', _ratio(y, x))
        return r + math.pi if bool(y >= 0) else r - math.pi
    if bool(y > 0):
        return math.pi / 2
    if bool(y < 0):
        return -math.pi / 2
    return 0.0


U1 = {
    'exp': _uf('exp'), 'log': _uf('log'), 'sin': _uf('sin'), 'cos': _uf('cos'),
    'tan': lambda e: apply_uf('sin', e) / apply_uf('cos', e) if is_sym(e) else math.tan(e),
    'arctan': _uf('atan'), 'arcsin': _uf('asin'),
    'arccos': _uf('acos'), 'tanh': _uf('tanh'),
    'log10': lambda e: apply_uf('log', e) / math.log(10),
    'log2': lambda e: apply_uf('log', e) / math.log(2),
    'log1p': lambda e: apply_uf('log', e + 1),
    'expm1': lambda e: apply_uf('exp', e) - 1,
    'sqrt': lambda e: ufs_sqrt(e if not isinstance(e, SymBool) else e._num()),
    'cbrt': lambda e: apply_uf('pow', e, 1.0 / 3),
    'absolute': _abs, 'fabs': _abs, 'negative': lambda e: -e,
    'positive': lambda e: e,
    'floor': _floor, 'ceil': _ceil, 'trunc': _trunc, 'rint': _rnd,
    'isnan': _isnan, 'isinf': _isinf, 'isfinite': _isfinite,
    'sign': _sign, 'square': _square, 'reciprocal': lambda e: 1.0 / e if is_sym(e) else 1.0 / pynum(e),
    'deg2rad': lambda e: e * DEG, 'radians': lambda e: e * DEG,
    'rad2deg': lambda e: e / DEG, 'degrees': lambda e: e / DEG,
    'logical_not': _lnot,
    'invert': lambda e: _lnot(e) if isinstance(e, (SymBool, bool, np.bool_)) else ~(e.__index__() if is_sym(e) else int(e)),
    'conjugate': lambda e: e,
    'signbit': lambda e: e < 0,
}
U2 = {
    'add': _arith('add'), 'subtract': _arith('sub'), 'multiply': _arith('mul'),
    'divide': _arith('div'), 'true_divide': _arith('div'),
    'floor_divide': _arith('floordiv'), 'remainder': _arith('mod'), 'mod': _arith('mod'),
    'fmod': lambda a, b: a - b * _trunc(_arith('div')(a, b)),
    'power': _arith('pow'), 'float_power': _arith('pow'),
    'less': _cmp('lt'), 'less_equal': _cmp('le'), 'greater': _cmp('gt'),
    'greater_equal': _cmp('ge'), 'equal': _cmp('eq'), 'not_equal': _cmp('ne'),
    'logical_and': _land, 'logical_or': _lor, 'logical_xor': _lxor,
    'bitwise_and': _arith('and'), 'bitwise_or': _arith('or'),
    'bitwise_xor': _arith('xor'),
    'minimum': _min2, 'maximum': _max2,
    'fmin': lambda a, b: b if (not is_sym(a) and a != a) else (a if (not is_sym(b) and b != b) else _min2(a, b)),
    'fmax': lambda a, b: b if (not is_sym(a) and a != a) else (a if (not is_sym(b) and b != b) else _max2(a, b)),
    'hypot': _hypot, 'arctan2': _atan2,
    'copysign': lambda a, b: ite(b >= 0, abs(a), -abs(a)),
    'heaviside': lambda a, b: ite(a > 0, 1.0, ite(a < 0, 0.0, b)),
}
IDENT = {'add': 0.0, 'multiply': 1.0, 'logical_or': False, 'logical_and': True}


def reduce_(name, a, axis=None, keepdims=False, initial=None, where=True, **k):
    if where is not True:
        raise SymEscape('reduce where=')
    f = U2[name]
    x = oarr(a)
    if axis is None:
        el = list(x.ravel())
        ax = None
    elif isinstance(axis, tuple):
        r = a
        for ax_ in sorted((i % x.ndim for i in axis), reverse=True):
            r = reduce_(name, r, ax_)
        return r
    else:
        ax = axis % x.ndim if x.ndim else 0

    def red(el):
        if initial is not None:
            acc = initial
        elif not el:
            if name in IDENT:
                v = IDENT[name]
                if name == 'add' and isinstance(a, np.ndarray) and raw(a).dtype.kind in 'iub':
                    v = 0
                return v
            raise ValueError('zero-size array to reduction operation %s which '
                             'has no identity' % name)
        else:
            acc = el[0]
            if name in ('logical_or', 'logical_and'):
                acc = _lor(acc, False)
            elif name == 'add' and isinstance(acc, (bool, np.bool_)):
                acc = int(acc)
            el = el[1:]
        for e in el:
            acc = f(acc, e)
        return acc

    if ax is None:
        r = red(el)
        if keepdims:
            o = np.empty((1,) * x.ndim, dtype=object)
            o[...] = r
            return o
        return r
    moved = np.moveaxis(x, ax, 0)
    out = np.empty(moved.shape[1:], dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = red([moved[(i,) + ix] for i in range(moved.shape[0])])
    out = _tighten(out)
    if keepdims:
        out = np.expand_dims(out, ax)
    return out


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('casting', None)
    dtype = kw.pop('dtype', None)
    kw.pop('order', None)
    kw.pop('subok', None)
    if out is not None and isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    if where is not True:
        if method != '__call__':
            raise SymEscape('ufunc where in ' + method)
        r = ufunc_dispatch(ufunc, method, inputs, {})
        if out is None:
            raise SymEscape('ufunc where= without out')
        sel = where_(where, r, out)
        return wrap(_store(oarr(sel), out))
    # no object data at all: run natively
    if not any(_needs(x) for x in inputs) and not _needs(out):
        args = [raw(x) for x in inputs]
        if out is not None:
            kw['out'] = raw(out)
        if dtype is not None:
            kw['dtype'] = dtype
        r = getattr(ufunc, method)(*args, **kw)
        if out is not None:
            return out
        r = wrap(r)
        if isinstance(r, np.ndarray) and r.dtype.kind == 'f':
            r = oarr(r).view(SymArray)
        return r
    if method == '__call__':
        if len(inputs) == 1 and name in U1:
            return wrap(vec1(U1[name], inputs[0], out))
        if len(inputs) == 2 and name in U2:
            return wrap(vec2(U2[name], inputs[0], inputs[1], out))
        if name == 'clip' and len(inputs) == 3:
            return clip(*inputs, out=out)
        if name == 'isclose':
            pass
        if name == 'matmul':
            return wrap(np.dot(oarr(inputs[0]), oarr(inputs[1])))
        if name == 'divmod':
            return ufunc_dispatch(np.floor_divide, '__call__', inputs, {}), \
                ufunc_dispatch(np.remainder, '__call__', inputs, {})
        if name == 'modf':
            i = vec1(_trunc, inputs[0])
            return wrap(inputs[0] - i), wrap(i)
        raise SymEscape('ufunc %s' % name)
    if method == 'reduce':
        axis = kw.pop('axis', 0)
        return wrap(_store(reduce_(name, inputs[0], axis, **kw), out))
    if method == 'accumulate':
        x = oarr(inputs[0])
        axis = kw.get('axis', 0)
        moved = np.moveaxis(x, axis, 0)
        r = np.empty(moved.shape, dtype=object)
        for i in range(moved.shape[0]):
            if i == 0:
                r[0] = moved[0]
            else:
                for ix in np.ndindex(*moved.shape[1:]):
                    r[(i,) + ix] = U2[name](r[(i - 1,) + ix], moved[(i,) + ix])
        return wrap(np.moveaxis(r, 0, axis))
    if method == 'outer':
        a, b = oarr(inputs[0]), oarr(inputs[1])
        r = np.empty(a.shape + b.shape, dtype=object)
        for ia in np.ndindex(*a.shape):
            for ib in np.ndindex(*b.shape):
                r[ia + ib] = U2[name](a[ia], b[ib])
        return wrap(_tighten(r))
    if method == 'at':
        a, idx, b = (list(inputs) + [None])[:3]
        ra = raw(a)
        idxs = np.atleast_1d(fix_index(idx))
        bb = np.broadcast_to(oarr(b), idxs.shape)
        for i, v in zip(idxs, bb):
            ra[i] = U2[name](ra[i], v)
        return None
    raise SymEscape('ufunc %s.%s' % (name, method))


def _needs(x):
    if isinstance(x, (Sym, SymBool, SymTime, SymDelta)):
        return True
    if isinstance(x, np.ndarray):
        return _real_ndarray.dtype.__get__(x) == object
    if isinstance(x, (list, tuple)):
        return has_sym(x)
    return False


# ---------------------------------------------------------------------------
# array functions

FUNCS = {}


def func(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


def function_dispatch(f, types_, args, kwargs):
    name = f.__name__
    if name in FUNCS:
        return FUNCS[name](*args, **kwargs)
    # no symbolic data at all: run natively on machine numbers
    if not _deep_sym(args) and not _deep_sym(list(kwargs.values())):
        r = f(*deep_native(args), **{k: deep_native(v) for k, v in kwargs.items()})
        return deep_objify(r)
    # default implementation on plain views
    args = deep_raw(args)
    kwargs = {k: deep_raw(v) for k, v in kwargs.items()}
    try:
        r = f(*args, **kwargs)
    except (TypeError, np.linalg.LinAlgError) as e:
        raise SymEscape('numpy function %s: %s' % (name, e))
    return deep_wrap(r)


def _deep_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(e) for e in x)
    return has_sym(x)


def deep_native(x):
    if isinstance(x, np.ndarray):
        a = raw(x)
        if isinstance(x, SymArray) and a.dtype == object and x.dtype != object:
            return a.astype(x.dtype)
        return a
    if isinstance(x, tuple):
        return tuple(deep_native(e) for e in x)
    if isinstance(x, list):
        return [deep_native(e) for e in x]
    return x


def deep_objify(r):
    if isinstance(r, np.ndarray):
        if r.dtype.kind == 'f' and r.ndim:
            r = r.astype(object)
        return wrap(r)
    if isinstance(r, tuple):
        t = [deep_objify(e) for e in r]
        return type(r)(*t) if hasattr(r, '_fields') else tuple(t)
    if isinstance(r, list):
        return [deep_objify(e) for e in r]
    return r


def deep_raw(x):
    if isinstance(x, SymArray):
        return raw(x)
    if isinstance(x, tuple):
        return tuple(deep_raw(e) for e in x)
    if isinstance(x, list):
        return [deep_raw(e) for e in x]
    return x


def deep_wrap(x):
    if isinstance(x, np.ndarray):
        return wrap(x)
    if isinstance(x, tuple):
        return tuple(deep_wrap(e) for e in x)
    if isinstance(x, list):
        return [deep_wrap(e) for e in x]
    return x


def sqrt(x):
    return wrap(vec1(U1['sqrt'], x))


def array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, **k):
    if isinstance(x, RecView):
        return x.copy() if copy else x
    if isinstance(x, StructArr) or dtype is not None and not is_floaty(dtype) and symbolic_layout(np.dtype(dtype)):
        if isinstance(x, StructArr):
            if dtype is not None and np.dtype(dtype) != x.dtype:
                raise SymEscape('conversion of a structured array')
            return x.copy() if copy else x
        return StructArr.of(x, np.dtype(dtype))
    if dtype is not None and not isinstance(dtype, type):
        pass
    if isinstance(x, np.ndarray) and type(x) not in (np.ndarray, SymArray) and not subok:
        x = _real_ndarray.view(x, _real_ndarray)
    if dtype is None:
        if isinstance(x, np.ndarray):
            r = np.array(raw(x), copy=True) if copy else raw(x)
            if r.dtype.kind == 'f':
                r = r.astype(object)
        elif has_sym(x):
            r = oarr(x)
            if r.ndim and isinstance(x, np.ndarray):
                r = r.copy()
        else:
            r = np.array(deep_raw(x))
            if r.dtype.kind == 'f':
                r = r.astype(object)
            if r.dtype == object:
                r = _try_obj(x, r)
    elif is_floaty(dtype):
        src = oarr(x)
        if copy or not (isinstance(x, np.ndarray) and raw(x).dtype == object):
            src = src.copy()
        r = src
        for ix in np.ndindex(*r.shape):
            e = r[ix]
            if isinstance(e, SymBool):
                r[ix] = e._num()
                e = r[ix]
            if isinstance(e, Sym):
                if e.is_int:
                    if copy or True:
                        r[ix] = Sym(z3.ToReal(e.z))
            elif type(e) is not float:
                if isinstance(e, (SymTime, SymDelta)):
                    raise SymEscape('datetime to float')
                r[ix] = float(e) if e is not None else math.nan
    elif is_inty(dtype) or is_booly(dtype):
        if has_sym(x):
            return astype(wrap(oarr(x)) if oarr(x).ndim else oarr(x)[()], dtype)
        r = np.array(deep_raw(x), dtype=dtype)
    else:
        d = np.dtype(dtype)
        if d == object:
            r = oarr(x).copy() if isinstance(x, np.ndarray) else oarr(x)
        elif d.names and has_sym(x):
            return RecView(np.array(oarr(x)).reshape(-1, 3).view(SymArray), d)
        elif d.kind == 'M' and has_sym(x):
            r = np.array(oarr(x))
            for ix in np.ndindex(*r.shape):
                e = r[ix]
                if isinstance(e, SymTime):
                    if d == np.dtype('M8[s]'):
                        r[ix] = e.replace(microsecond=0)
                elif isinstance(e, np.datetime64):
                    r[ix] = e.astype(object)
        else:
            r = np.array(deep_raw(x), dtype=dtype)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    if r.ndim == 0:
        return r.view(SymArray) if r.dtype == object else r.view(SymArray)
    return r.view(SymArray)


def _try_obj(x, r):
    return r


def asarray(x, dtype=None, order=None, **k):
    if isinstance(x, SymArray):
        if dtype is None:
            return x
        if is_floaty(dtype) and x.rdtype == object and x.dtype.kind == 'f':
            return x
        if x.rdtype != object and np.dtype(dtype) == x.rdtype:
            return x
    if isinstance(x, RecView):
        return x
    return array(x, dtype=dtype, copy=False)


def asanyarray(x, dtype=None, order=None, **k):
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    return asarray(x, dtype)


def _filled(shape, dtype, val):
    if isinstance(shape, Sym):
        shape = shape.__index__()
    if isinstance(shape, (tuple, list)):
        shape = tuple(s.__index__() if isinstance(s, Sym) else s for s in shape)
    if dtype is None or is_floaty(dtype):
        r = np.empty(shape, dtype=object)
        r[...] = float(val) if not is_sym(val) else val
        return r.view(SymArray)
    if np.dtype(dtype).names:
        d = np.dtype(dtype)
        if all(d[n].kind == 'f' for n in d.names) and len(d.names) == 3:
            n = shape if isinstance(shape, int) else (shape[0] if len(shape) == 1 else shape)
            if isinstance(n, int):
                r = np.empty((n, 3), dtype=object)
                r[...] = float(val)
                return RecView(r.view(SymArray), d)
        n = shape if isinstance(shape, int) else (shape[0] if len(shape) == 1 else shape)
        if isinstance(n, (int, np.integer)):
            return StructArr.zeros(int(n), d)
        return np.zeros(shape, dtype=dtype).view(SymArray)
    if is_sym(val):
        r = np.empty(shape, dtype=object)
        r[...] = val
        return r.view(SymArray)
    r = np.empty(shape, dtype=dtype)
    r[...] = val
    return r.view(SymArray)


def zeros(shape, dtype=float, order='C', **k):
    return _filled(shape, dtype, 0)


def ones(shape, dtype=None, order='C', **k):
    return _filled(shape, dtype, 1)


def empty(shape, dtype=float, order='C', **k):
    return _filled(shape, dtype, 0)


def full(shape, fill_value, dtype=None, order='C', **k):
    if isinstance(fill_value, (list, tuple, np.ndarray)):
        r = _filled(shape, dtype or float, 0)
        r[...] = fill_value
        return r
    if dtype is None:
        if isinstance(fill_value, (bool, np.bool_)):
            dtype = bool
        elif isinstance(fill_value, (int, np.integer)):
            dtype = int
    return _filled(shape, dtype, fill_value)


def _like_dtype(a, dtype):
    if dtype is not None:
        return dtype
    if isinstance(a, RecView):
        return a.dt
    if isinstance(a, (np.ndarray, Sym, SymBool)):
        return a.dtype
    if has_sym(a):
        return float
    return np.asarray(a).dtype


@func('zeros_like')
def zeros_like(a, dtype=None, shape=None, **k):
    return _filled(shape if shape is not None else np.shape(raw(a)) if isinstance(a, np.ndarray) else _shape_of(a), _like_dtype(a, dtype), 0)


@func('ones_like')
def ones_like(a, dtype=None, shape=None, **k):
    return _filled(shape if shape is not None else _shape_of(a), _like_dtype(a, dtype), 1)


@func('empty_like')
def empty_like(a, dtype=None, shape=None, **k):
    return _filled(shape if shape is not None else _shape_of(a), _like_dtype(a, dtype), 0)


@func('full_like')
def full_like(a, v, dtype=None, shape=None, **k):
    return _filled(shape if shape is not None else _shape_of(a), _like_dtype(a, dtype), v)


def astype(x, t):
    if isinstance(x, (Sym, SymBool)):
        return _cast(x, t)
    a = oarr(x) if isinstance(x, SymArray) and x.rdtype == object else None
    if a is None:
        r = raw(x).astype(t)
        if r.dtype.kind == 'f':
            r = r.astype(object)
        return r.view(SymArray)
    r = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        r[ix] = _cast(a[ix], t)
    if not is_floaty(t) and not has_sym(r) and np.dtype(t) != object:
        r = r.astype(t)
    return r.view(SymArray)


def _cast(e, t):
    if is_floaty(t):
        if isinstance(e, SymBool):
            e = e._num()
        if isinstance(e, Sym):
            return e if not e.is_int else Sym(z3.ToReal(e.z))
        return float(e) if e is not None else math.nan
    if is_booly(t):
        if isinstance(e, SymBool):
            return e
        if isinstance(e, Sym):
            return mkbool(e.z != 0)
        return bool(e)
    if is_inty(t):
        if isinstance(e, SymBool):
            return e._num()
        if isinstance(e, Sym):
            return Sym(core.trunc_z(e.z))
        return np.dtype(t).type(e).item()
    return e


@func('where')
def where_(cond, *xy):
    if not xy:
        return nonzero(cond)
    x, y = xy
    if isinstance(cond, (SymBool, bool, np.bool_)) and not any(
            isinstance(v, (np.ndarray, list, tuple)) for v in xy):
        r = ite(cond, x, y)
        return r if is_sym(r) or not isinstance(r, (float, int, bool, np.generic)) else np.asarray(r)
    c, a, b = np.broadcast_arrays(oarr(cond), oarr(x), oarr(y))
    r = np.empty(c.shape, dtype=object)
    for ix in np.ndindex(*c.shape):
        r[ix] = ite(c[ix], a[ix], b[ix])
    if r.ndim:
        return wrap(_tighten(r))
    r = r[()]
    return r if is_sym(r) or not isinstance(r, (float, int, bool, np.generic)) else np.asarray(r)


@func('nonzero')
def nonzero(a):
    m = conc_mask(a)
    return tuple(x.view(SymArray) for x in np.nonzero(m))


@func('choose')
def choose(a, choices, out=None, mode='raise'):
    ch = [oarr(c) for c in choices]
    bc = np.broadcast_arrays(oarr(a), *ch)
    a, ch = bc[0], bc[1:]
    r = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        v = a[ix]
        if isinstance(v, SymBool):
            r[ix] = ite(v, ch[1][ix], ch[0][ix])
        elif isinstance(v, Sym):
            r[ix] = ch[v.__index__()][ix]
        else:
            r[ix] = ch[int(v)][ix]
    return wrap(_tighten(r))


@func('flatnonzero')
def flatnonzero(a):
    return np.flatnonzero(conc_mask(a)).view(SymArray)


@func('argwhere')
def argwhere(a):
    return np.argwhere(conc_mask(a)).view(SymArray)


@func('count_nonzero')
def count_nonzero(a, axis=None, **k):
    return reduce_('add', vec1(lambda e: (mkbool(boolz(e)) if is_sym(e) else bool(e)) + 0, a), axis)


@func('clip')
def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    r = a
    if a_min is not None:
        r = vec2(_max2, r, a_min)
    if a_max is not None:
        r = vec2(_min2, r, a_max)
    if r is a and isinstance(a, np.ndarray):
        r = a.copy()
    if out is not None:
        return _store(oarr(r), out)
    return wrap(r)


@func('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return wrap(vec2(lambda x, y: _close1(x, y, rtol, atol, equal_nan), a, b))


def _close1(x, y, rtol, atol, equal_nan=False):
    if not is_sym(x) and not is_sym(y):
        return bool(np.isclose(x, y, rtol, atol, equal_nan))
    if not is_sym(x) and core.is_special(pynum(x)) or not is_sym(y) and core.is_special(pynum(y)):
        return False
    d = abs(x - y)
    return d <= atol + rtol * abs(y)


@func('allclose')
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return reduce_('logical_and', oarr(isclose(a, b, rtol, atol, equal_nan)))


@func('array_equal')
def array_equal(a, b, equal_nan=False):
    if isinstance(a, StructArr) or isinstance(b, StructArr):
        e = a == b
        return False if e is False else reduce_('logical_and', e) if e.size else True
    a, b = oarr(a), oarr(b)
    if a.shape != b.shape:
        return False
    return reduce_('logical_and', vec2(_cmp('eq'), a, b)) if a.size else True


@func('sum')
def sum_(a, axis=None, **k):
    k.pop('dtype', None)
    k.pop('out', None)
    return wrap(reduce_('add', asarray(a), axis, **k))


@func('prod')
def prod(a, axis=None, **k):
    return wrap(reduce_('multiply', a, axis))


@func('nansum')
def nansum(a, axis=None, **k):
    return wrap(reduce_('add', vec1(lambda e: 0.0 if _isnan(e) else e, a), axis))


@func('any')
def any_(a, axis=None, out=None, **k):
    return wrap(reduce_('logical_or', a, axis))


@func('all')
def all_(a, axis=None, out=None, **k):
    return wrap(reduce_('logical_and', a, axis))


@func('min', 'amin')
def amin(a, axis=None, **k):
    return wrap(reduce_('minimum', a, axis))


@func('max', 'amax')
def amax(a, axis=None, **k):
    return wrap(reduce_('maximum', a, axis))


@func('nanmax')
def nanmax(a, axis=None, **k):
    if axis is not None:
        raise SymEscape('nanmax axis')
    return reduce_('maximum', oarr([e for e in oarr(a).ravel() if not _isnan(e)]))


@func('nanmin')
def nanmin(a, axis=None, **k):
    if axis is not None:
        raise SymEscape('nanmin axis')
    return reduce_('minimum', oarr([e for e in oarr(a).ravel() if not _isnan(e)]))


@func('mean')
def mean(a, axis=None, **k):
    return asarray(a).mean(axis=axis)


@func('average')
def average(a, axis=None, weights=None, **k):
    a = asarray(a)
    if weights is None:
        return a.mean(axis=axis)
    w = asarray(weights)
    if axis is not None and a.ndim > 1:
        raise SymEscape('average axis')
    return (a * w).sum() / w.sum()


@func('std')
def std(a, axis=None, **k):
    return asarray(a).std(axis=axis)


@func('var')
def var(a, axis=None, **k):
    s = asarray(a).std(axis=axis)
    return s * s


@func('median')
def median(a, axis=None, **k):
    s = sort(asarray(a).ravel() if axis is None else _fail('median axis'))
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


@func('round', 'around')
def round_(a, decimals=0, out=None):
    return wrap(vec1(lambda e: _rnd(e, decimals), a, out))


@func('nan_to_num')
def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    return wrap(vec1(lambda e: nan if _isnan(e) else e, a))


@func('argmin')
def argmin(a, axis=None, **k):
    return _argext(a, axis, False)


@func('argmax')
def argmax(a, axis=None, **k):
    return _argext(a, axis, True)


def _argext(a, axis, mx):
    x = oarr(a)
    if axis is not None and x.ndim > 1:
        moved = np.moveaxis(x, axis, 0)
        r = np.empty(moved.shape[1:], dtype=int)
        for ix in np.ndindex(*r.shape):
            r[ix] = _argext(moved[(slice(None),) + ix], None, mx)
        return r.view(SymArray)
    el = list(x.ravel())
    b = 0
    for i in range(1, len(el)):
        if bool(el[i] > el[b] if mx else el[i] < el[b]):
            b = i
    return b


@func('sort')
def sort(a, axis=-1, **k):
    x = oarr(a)
    if x.ndim == 1:
        r = np.empty(x.shape, dtype=object)
        r[:] = sorted(x.tolist()) if x.size else []
        return _tighten(r).view(SymArray)
    return wrap(np.sort(x, axis))


@func('argsort')
def argsort(a, axis=-1, **k):
    x = list(oarr(a))
    return np.array(sorted(range(len(x)), key=lambda i: _Key(x[i])), dtype=int).view(SymArray)


class _Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


@func('unique')
def unique(a, return_index=False, return_inverse=False, return_counts=False, **k):
    x = list(oarr(a).ravel())
    order = sorted(range(len(x)), key=lambda i: _Key(x[i]))
    vals, first, inv, cnt = [], [], [0] * len(x), []
    for i in order:
        if vals and bool(x[i] == vals[-1]):
            cnt[-1] += 1
            first[-1] = min(first[-1], i)
        else:
            vals.append(x[i])
            first.append(i)
            cnt.append(1)
        inv[i] = len(vals) - 1
    r = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        r[i] = v
    if not has_sym(r) and isinstance(a, np.ndarray) and raw(a).dtype != object:
        r = r.astype(raw(a).dtype)
    out = [r.view(SymArray)]
    if return_index:
        out.append(np.array(first, dtype=int).view(SymArray))
    if return_inverse:
        out.append(np.array(inv, dtype=int).view(SymArray))
    if return_counts:
        out.append(np.array(cnt, dtype=int).view(SymArray))
    return out[0] if len(out) == 1 else tuple(out)


@func('searchsorted')
def searchsorted(a, v, side='left', sorter=None):
    el = list(oarr(a))

    def one(x):
        i = 0
        for e in el:
            if bool(e < x) or (side == 'right' and bool(e == x)):
                i += 1
            else:
                break
        return i
    if isinstance(v, (np.ndarray, list, tuple)):
        vv = oarr(v)
        r = np.array([one(x) for x in vv.ravel()], dtype=int).reshape(vv.shape)
        return r.view(SymArray) if r.ndim else int(r)
    return one(v)


@func('digitize')
def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')


@func('interp')
def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = list(oarr(xp)), list(oarr(fp))

    def one(v):
        if bool(v <= xp[0]):
            if left is not None and bool(v < xp[0]):
                return left
            return fp[0]
        if bool(v >= xp[-1]):
            if right is not None and bool(v > xp[-1]):
                return right
            return fp[-1]
        for i in range(1, len(xp)):
            if bool(v <= xp[i]):
                return fp[i - 1] + (fp[i] - fp[i - 1]) * (v - xp[i - 1]) / (xp[i] - xp[i - 1])
    return wrap(vec1(one, x))


FILES = {}      # stands in for files of arrays


@func('savez')
def savez(file, *a, **k):
    if a:
        raise SymEscape('savez of unnamed arrays')
    f = str(file)
    f = f if f.endswith('.npz') else f + '.npz'
    open(f, 'w').close()        # so that deleting it is seen
    FILES[f] = {n: v.copy() if isinstance(v, np.ndarray) else array(v) for n, v in k.items()}


@func('load')
def load(file, *a, **k):
    if str(file) in FILES and os.path.exists(file):
        return {n: v.copy() for n, v in FILES[str(file)].items()}
    return np.load(file, *a, **k)


@func('putmask')
def putmask(a, mask, values):
    v = np.broadcast_to(oarr(values), a.shape)
    m = np.broadcast_to(oarr(mask), a.shape)
    ra = raw(a)
    for ix in np.ndindex(*a.shape):
        ra[ix] = ite(m[ix], v[ix], ra[ix])


@func('copyto')
def copyto(dst, src, casting=None, where=True):
    if where is True:
        dst[...] = src
    else:
        putmask(dst, where, src)


@func('place')
def place(a, mask, vals):
    a[conc_mask(mask)] = vals


@func('extract')
def extract(cond, a):
    return asarray(a)[conc_mask(cond)]


@func('compress')
def compress(cond, a, axis=None, out=None):
    return asarray(a)[conc_mask(cond)]


@func('select')
def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where_(c, v, r)
    return r


@func('delete')
def delete(a, obj, axis=None):
    return wrap(np.delete(raw(asarray(a)), fix_index(obj) if not isinstance(obj, (int, slice)) else obj, axis))


@func('dot')
def dot(a, b, out=None):
    return wrap(np.dot(oarr(a), oarr(b)))


@func('cross')
def cross(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    return wrap(np.cross(oarr(a), oarr(b)))


@func('insert')
def insert(a, obj, values, axis=None):
    if not isinstance(a, StructArr):
        return deep_wrap(np.insert(deep_raw(a), deep_raw(obj), deep_raw(values), axis))
    if not isinstance(obj, (int, np.integer)):
        raise SymEscape('insert at several places of a structured array')
    v = values if isinstance(values, StructArr) else StructArr.of(values, a.dtype)
    i = int(obj)
    if not -a.n <= i <= a.n:
        raise IndexError('index %d is out of bounds for axis 0 with size %d' % (i, a.n))
    rows = [tuple(r) for r in a]
    i = i + a.n if i < 0 else i
    return StructArr.of(rows[:i] + [tuple(r) for r in v] + rows[i:], a.dtype)


@func('diff')
def diff(a, n=1, axis=-1, **k):
    if raw(a).dtype.kind in 'mM':
        return wrap(np.diff(raw(a), n, axis))
    return wrap(np.diff(oarr(a), n, axis))


@func('cumsum')
def cumsum(a, axis=None, **k):
    x = oarr(a)
    if axis is None:
        x = x.ravel()
        axis = 0
    return ufunc_dispatch(np.add, 'accumulate', (x,), {'axis': axis})


@func('linspace')
def linspace(a, b, num=50, endpoint=True, **k):
    if not (has_sym(a) or has_sym(b)):
        return array(np.linspace(raw(a), raw(b), num, endpoint=endpoint, **k))
    if k.get('axis') or k.get('retstep'):
        raise SymEscape('linspace options')
    n = int(num)
    if isinstance(a, (list, tuple)):
        a = asarray(a)
    if isinstance(b, (list, tuple)):
        b = asarray(b)
    div = (n - 1) if endpoint else n
    rows = []
    for i in range(n):
        rows.append(a + (b - a) * core.Fraction(i, div) if div else a)
    if n == 0:
        return zeros((0,) + _shape_of(a))
    r = array(rows)
    return r


@func('trapz', 'trapezoid')
def trapz(y, x=None, dx=1.0, axis=-1):
    y = asarray(y)
    if x is None:
        return ((y[1:] + y[:-1]) / 2 * dx).sum()
    x = asarray(x)
    return ((y[1:] + y[:-1]) / 2 * (x[1:] - x[:-1])).sum()


@func('isin', 'in1d')
def isin(a, test, invert=False, **k):
    t = list(oarr(test).ravel())

    def one(e):
        r = False
        for x in t:
            r = _lor(r, e == x)
        return _lnot(r) if invert else r
    return wrap(vec1(one, a))


@func('intersect1d')
def intersect1d(a, b, **k):
    return unique(asarray(a)[isin(a, b)])


@func('setdiff1d')
def setdiff1d(a, b, **k):
    return unique(asarray(a)[isin(a, b, invert=True)])


@func('atleast_1d')
def atleast_1d(*xs):
    r = [asarray(x) for x in xs]
    r = [x.reshape(1) if x.ndim == 0 else x for x in r]
    return r[0] if len(r) == 1 else tuple(r)


@func('atleast_2d')
def atleast_2d(*xs):
    r = [asarray(x) for x in xs]
    r = [x.reshape(1, 1) if x.ndim == 0 else (x.reshape(1, -1) if x.ndim == 1 else x) for x in r]
    return r[0] if len(r) == 1 else tuple(r)


@func('concatenate')
def concatenate(arrs, axis=0, **k):
    arrs = [raw(asarray(a)) for a in arrs]
    return wrap(np.concatenate(arrs, axis=axis))


@func('vstack')
def vstack(arrs, **k):
    return wrap(np.vstack([raw(asarray(a)) for a in arrs]))


@func('hstack')
def hstack(arrs, **k):
    return wrap(np.hstack([raw(asarray(a)) for a in arrs]))


@func('dstack')
def dstack(arrs, **k):
    return wrap(np.dstack([raw(asarray(a)) for a in arrs]))


@func('stack')
def stack(arrs, axis=0, **k):
    return wrap(np.stack([raw(asarray(a)) for a in arrs], axis=axis))


@func('column_stack')
def column_stack(arrs):
    return wrap(np.column_stack([raw(asarray(a)) for a in arrs]))


@func('append')
def append(a, v, axis=None):
    return wrap(np.append(raw(asarray(a)), raw(asarray(v)), axis=axis))


@func('shape')
def shape(a):
    return _shape_of(a)


@func('size')
def size(a, axis=None):
    s = _shape_of(a)
    if axis is not None:
        return s[axis]
    n = 1
    for d in s:
        n *= d
    return n


@func('ndim')
def ndim(a):
    return len(_shape_of(a))


@func('isscalar')
def isscalar(x):
    return isinstance(x, (Sym, SymBool)) or np.isscalar(x)


@func('iscomplexobj')
def iscomplexobj(x):
    return False


@func('copy')
def copy_(a, *r, **k):
    return array(a)


@func('ascontiguousarray')
def ascontiguousarray(a, dtype=None):
    return asarray(a, dtype)


@func('require')
def require(a, *r, **k):
    return asarray(a)


@func('broadcast_to')
def broadcast_to(a, shape, **k):
    return wrap(np.broadcast_to(oarr(a), shape))


@func('can_cast')
def can_cast(a, b, *r, **k):
    return True


class _RC:
    def __init__(self, real):
        self.real = real

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        ks = []
        for x in key:
            if isinstance(x, (np.ndarray, list, tuple)):
                ks.append(raw(asarray(x)))
            elif isinstance(x, (Sym, SymBool)):
                ks.append(oarr([x]))
            else:
                ks.append(x)
        r = self.real[tuple(ks)]
        if isinstance(r, np.ndarray) and r.dtype.kind == 'f':
            r = r.astype(object)
        return wrap(r)


class RandomShim(types.ModuleType):
    """numpy.random: arbitrary values of the documented range (environment stub)"""
    def __init__(self):
        super().__init__('numpy.random')

    def _draw(self, tag, lo, hi, size, strict=True):
        c = core.ctx()
        if size is None:
            if isinstance(lo, np.ndarray) or isinstance(hi, np.ndarray):
                a, b = np.broadcast_arrays(oarr(lo), oarr(hi))
                r = np.empty(a.shape, dtype=object)
                for ix in np.ndindex(*a.shape):
                    r[ix] = c.rand_real(tag, a[ix], b[ix], strict)
                return r.view(SymArray)
            return c.rand_real(tag, lo, hi, strict)
        if isinstance(size, Sym):
            size = size.__index__()
        sh = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        r = np.empty(sh, dtype=object)
        a = np.broadcast_to(oarr(lo), sh)
        b = np.broadcast_to(oarr(hi), sh)
        for ix in np.ndindex(*sh):
            r[ix] = c.rand_real(tag, a[ix], b[ix], strict)
        return r.view(SymArray)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._draw('uniform', low, high, size)

    def random(self, size=None):
        return self._draw('random', 0.0, 1.0, size)

    random_sample = random
    sample = random
    ranf = random

    def rand(self, *sh):
        return self._draw('random', 0.0, 1.0, sh if sh else None)

    def seed(self, s=None):
        core.ctx().reseed(s)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        c = core.ctx()
        if size is None:
            return c.rand_int('randint', low, high)
        if isinstance(size, Sym):
            size = size.__index__()
        sh = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        r = np.empty(sh, dtype=object)
        for ix in np.ndindex(*sh):
            r[ix] = c.rand_int('randint', low, high)
        return r.view(SymArray)

    def normal(self, loc=0.0, scale=1.0, size=None):
        """any value (the tails are unbounded; cut at 8 sigma)"""
        return loc + scale * self._draw('normal', -8.0, 8.0, size)

    def standard_normal(self, size=None):
        return self._draw('normal', -8.0, 8.0, size)

    def randn(self, *sh):
        return self._draw('normal', -8.0, 8.0, sh if sh else None)

    def __getattr__(self, n):
        raise SymEscape('numpy.random.' + n)


_shim_self = {}


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        d = self.__dict__
        for n, f in FUNCS.items():
            d[n] = f
        for f in (array, asarray, asanyarray, zeros, ones, empty, full):
            d[f.__name__] = f
        for n in U1:
            d[n] = _mk_u(n)
        for n in U2:
            d[n] = _mk_u(n)
        d['abs'] = d['absolute']
        d['concat'] = concatenate
        d['asfarray'] = lambda x, dtype=float: asarray(x, float)
        d['r_'] = _RC(np.r_)
        d['c_'] = _RC(np.c_)
        d['random'] = RandomShim()
        d['pow'] = d['power']
        d['bool'] = np.bool_
        d['float64'] = FloatShim
        d['float_'] = FloatShim
        d['float32'] = Float32Shim
        d['ma'] = np.ma
        d['linalg'] = _SubMod(np.linalg)
        d['int32'] = mk_int_shim(np.int32)
        d['int64'] = mk_int_shim(np.int64)
        d['isclose'] = isclose
        d['linspace'] = linspace
        d['arange'] = arange

    def __getattr__(self, n):
        v = getattr(np, n)
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) or callable(v) and not isinstance(v, type):
            def g(*a, **k):
                return generic_call(v, a, k)
            g.__name__ = n
            return g
        return v


def arange(*a, **k):
    """symbolic integer arguments are forked over their values"""
    def c(x):
        if isinstance(x, Sym):
            if not x.is_int:
                raise SymEscape('arange of a symbolic real')
            return x.__index__()
        return x
    return generic_call(np.arange, [c(x) for x in a], k)


def generic_call(v, a, k):
    """a numpy function without an encoding of its own"""
    if not _deep_sym(a) and not _deep_sym(list(k.values())):
        return deep_objify(v(*deep_native(a), **{n: deep_native(x) for n, x in k.items()}))
    a = [oarr(x) if isinstance(x, (list, tuple)) and has_sym(x) else deep_raw(x) for x in a]
    try:
        return deep_wrap(v(*a, **{n: deep_raw(x) for n, x in k.items()}))
    except (TypeError, np.linalg.LinAlgError) as e:
        raise SymEscape('numpy function %s: %s' % (getattr(v, '__name__', v), e))


class _SubMod(types.ModuleType):
    """numpy.linalg and friends"""
    def __init__(self, real):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real

    def __getattr__(self, n):
        v = getattr(self.__dict__['_real'], n)
        if callable(v) and not isinstance(v, type):
            return lambda *a, **k: generic_call(v, a, k)
        return v


class _UShim:
    """callable look-alike of a ufunc"""
    def __init__(self, n):
        self.n = n
        self.u = getattr(np, n)
        self.__name__ = n

    def __call__(self, *a, **k):
        nin = 1 if self.n in U1 else 2
        ins = a[:nin]
        if len(a) > nin:
            k['out'] = a[nin]
        ins = tuple(asarray(x) if isinstance(x, (list, tuple)) else x for x in ins)
        return ufunc_dispatch(self.u, '__call__', ins, k)

    def reduce(self, a, axis=0, **k):
        k['axis'] = axis
        return ufunc_dispatch(self.u, 'reduce', (asarray(a),), k)

    def accumulate(self, a, axis=0, **k):
        return ufunc_dispatch(self.u, 'accumulate', (asarray(a),), {'axis': axis})

    def outer(self, a, b, **k):
        return ufunc_dispatch(self.u, 'outer', (asarray(a), asarray(b)), k)

    def at(self, a, i, b=None):
        return ufunc_dispatch(self.u, 'at', (a, i, b), {})

    def __getattr__(self, n):
        return getattr(self.u, n)


def _mk_u(n):
    return _UShim(n)


class _FMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, np.float64) or (isinstance(o, Sym) and not o.is_int)

    def __subclasscheck__(cls, o):
        return issubclass(o, np.float64)

    def __eq__(cls, o):
        return o is cls or o is np.float64 or (isinstance(o, np.dtype) and o == np.dtype('float64'))

    def __hash__(cls):
        return hash(np.float64)


class FloatShim(metaclass=_FMeta):
    dtype = np.dtype('float64')

    def __new__(cls, x=0.0):
        if isinstance(x, (Sym, SymBool)) or isinstance(x, np.ndarray) and has_sym(x):
            return _cast(x, float) if not isinstance(x, np.ndarray) else astype(x, float)
        return np.float64(x)


class Float32Shim(metaclass=_FMeta):
    dtype = np.dtype('float32')

    def __new__(cls, x=0.0):
        if isinstance(x, (Sym, SymBool)) or isinstance(x, np.ndarray) and has_sym(x):
            return _cast(x, float) if not isinstance(x, np.ndarray) else astype(x, float)
        return np.float32(x)


def mk_int_shim(real):
    class _IMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real) or (isinstance(o, Sym) and o.is_int)

        def __subclasscheck__(cls, o):
            return issubclass(o, real)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

    class IntShim(metaclass=_IMeta):
        dtype = np.dtype(real)

        def __new__(cls, x=0):
            if isinstance(x, (Sym, SymBool)):
                return _cast(x, int)
            if isinstance(x, np.ndarray) and has_sym(x):
                return astype(x, int)
            return real(x)
    IntShim.__name__ = real.__name__
    return IntShim


numpy_shim = NumpyShim()
