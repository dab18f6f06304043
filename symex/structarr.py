"""structured arrays whose fields hold symbolic values"""
import numpy as np

from .core import Sym, SymBool, SymEscape, SymTime, SymDelta


def symbolic_layout(d):
    """a record dtype kept as columns: not the (long, lat, z) triples"""
    return bool(d.names) and not (len(d.names) == 3 and all(d[n].kind == 'f' for n in d.names))


class StructArr:
    """one-dimensional array of records; every field is its own column"""
    ndim = 1

    def __init__(self, cols, d, n):
        self.cols, self.dtype, self.n = cols, d, n

    # -- construction
    @classmethod
    def zeros(cls, n, d):
        from . import symnp
        cols = {}
        for f in d.names:
            t = d[f]
            if t.names:
                cols[f] = cls.zeros(n, t)
            elif t.subdtype is not None:
                b, sh = t.subdtype
                cols[f] = symnp.zeros((n,) + sh, b)
            elif t.kind in 'iu':
                a = np.empty((n,), dtype=object)
                a[...] = 0
                cols[f] = a.view(symnp.SymArray)
            elif t.kind == 'M':
                cols[f] = np.zeros((n,), dtype=t).view(symnp.SymArray)
            else:
                cols[f] = symnp.zeros((n,), t)
        return cls(cols, d, n)

    @classmethod
    def of(cls, x, d):
        """from a native structured array or a sequence of records"""
        if isinstance(x, StructArr):
            return x.copy()
        if isinstance(x, np.ndarray) and x.dtype.names:
            r = cls.zeros(x.size, d)
            x = x.reshape(-1)
            for f in d.names:
                v = x[f]
                if v.dtype.names:
                    r.cols[f] = cls.of(v, d[f])
                else:
                    r[f] = v
            return r
        if isinstance(x, tuple):
            return cls.of([x], d)
        r = cls.zeros(len(x), d)
        for i, e in enumerate(x):
            r[i] = e
        return r

    # -- array protocol
    @property
    def shape(self): return (self.n,)

    @property
    def size(self): return self.n

    @property
    def nbytes(self): return self.n * self.dtype.itemsize

    @property
    def itemsize(self): return self.dtype.itemsize

    def __len__(self): return self.n

    def reshape(self, *a): return self

    def ravel(self): return self

    def copy(self, order=None):
        return StructArr({k: v.copy() for k, v in self.cols.items()}, self.dtype, self.n)

    def __copy__(self): return self.copy()

    def __deepcopy__(self, memo): return self.copy()

    def astype(self, d, copy=True):
        if np.dtype(d) != self.dtype:
            raise SymEscape('astype of a structured array')
        return self.copy()

    def tolist(self):
        return [tuple(r) for r in self]

    def __iter__(self):
        for i in range(self.n):
            yield StructRec(self, i)

    def _ix(self, i):
        if isinstance(i, Sym):
            i = i.__index__()
        i = int(i)
        if not -self.n <= i < self.n:
            raise IndexError('index %d is out of bounds for axis 0 with size %d' % (i, self.n))
        return i

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise ValueError('no field of name ' + k)
            return self.cols[k]
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        if isinstance(k, (int, np.integer, Sym)) and not isinstance(k, bool):
            return StructRec(self, self._ix(k))
        if isinstance(k, slice) or k is Ellipsis:
            cols = {f: c[k] for f, c in self.cols.items()}
            n = len(range(self.n)[k]) if isinstance(k, slice) else self.n
            return StructArr(cols, self.dtype, n)
        if isinstance(k, (list, np.ndarray)):
            cols = {f: c[k] for f, c in self.cols.items()}
            return StructArr(cols, self.dtype, len(next(iter(cols.values()))))
        raise SymEscape('index %r of a structured array' % (k,))

    def __setitem__(self, k, v):
        if isinstance(k, str):
            c = self.cols[k]
            if isinstance(c, StructArr):
                for i in range(self.n):
                    for f in c.dtype.names:
                        x = v[f][i] if isinstance(v, StructArr) or hasattr(v, 'dtype') and v.dtype.names else v
                        c._put(f, i, x)
                return
            if self.dtype[k].kind == 'M':
                if isinstance(v, (str, bytes)) or not hasattr(v, '__len__'):
                    v = [v] * self.n
                if len(v) != self.n:
                    raise ValueError('could not broadcast input array')
                for i in range(self.n):
                    self._put(k, i, v[i])
                return
            c[...] = v
            return
        if isinstance(k, slice):
            sub = self[k]
            for f in self.dtype.names:
                sub[f] = v[f]
            return
        i = self._ix(k)
        if isinstance(v, StructRec) or isinstance(v, np.void):
            v = tuple(v)
        if isinstance(v, StructArr) and v.n == 1:
            v = tuple(v[0])
        for f, x in zip(self.dtype.names, v):
            self._put(f, i, x)

    def _put(self, f, i, x):
        from . import symnp
        c = self.cols[f]
        t = self.dtype[f]
        if isinstance(c, StructArr):
            c[i] = x
        elif t.kind == 'M':
            if isinstance(x, SymTime):
                if symnp.raw(c).dtype != object:
                    o = np.empty((self.n,), dtype=object)
                    for j in range(self.n):
                        o[j] = symnp.raw(c)[j].astype(object)
                    c = o.view(symnp.SymArray)
                    self.cols[f] = c
                c[i] = x
            elif symnp.raw(c).dtype == object:
                c[i] = x.astype(object) if isinstance(x, np.datetime64) else x
            else:
                symnp.raw(c)[i] = x
        elif t.kind in 'iu':
            if isinstance(x, Sym) and not x.is_int:
                from . import core
                x = Sym(core.trunc_z(x.z))
            elif not isinstance(x, (Sym, SymBool)):
                x = int(x)
            c[i] = x
        elif t.subdtype is not None:
            c[i, ...] = x
        else:
            c[i] = x

    def __eq__(self, o):
        if not isinstance(o, (StructArr, np.ndarray)) or len(o) != self.n:
            return False
        from . import symnp
        r = np.empty((self.n,), dtype=object)
        for i in range(self.n):
            r[i] = self[i] == o[i]
        return r.view(symnp.SymArray)

    def __ne__(self, o):
        e = self.__eq__(o)
        return True if e is False else ~e
    __hash__ = None

    # -- memory
    def leaf(self, off):
        """byte offset in a record -> (column, index, kind, size)"""
        for f in self.dtype.names:
            t, o = self.dtype.fields[f][:2]
            if o <= off < o + t.itemsize:
                c = self.cols[f]
                if isinstance(c, StructArr):
                    return c.leaf(off - o)
                b = t.subdtype[0] if t.subdtype else t
                j, rem = divmod(off - o, b.itemsize)
                if rem:
                    raise SymEscape('access inside a field')
                return c, ((j,) if t.subdtype else ()), ('f' if b.kind == 'f' else 'i'), b.itemsize
        return None

    def leaves(self, base=0):
        out = []
        for f in self.dtype.names:
            t, o = self.dtype.fields[f][:2]
            c = self.cols[f]
            if isinstance(c, StructArr):
                out += c.leaves(base + o)
            else:
                b = t.subdtype[0] if t.subdtype else t
                out += [base + o + j * b.itemsize for j in range(t.itemsize // b.itemsize)]
        return out


class StructRec:
    def __init__(self, a, i):
        self.a, self.i, self.dtype = a, i, a.dtype

    def __getitem__(self, k):
        if not isinstance(k, str):
            k = self.dtype.names[k]
        return self.a.cols[k][self.i]

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            k = self.dtype.names[k]
        self.a._put(k, self.i, v)

    def __getattr__(self, n):
        if n.startswith('_') or n not in self.dtype.names:
            raise AttributeError(n)
        return self[n]

    def __iter__(self):
        for f in self.dtype.names:
            yield self[f]

    def __len__(self): return len(self.dtype.names)

    def item(self): return tuple(self)

    def tolist(self): return tuple(self)

    def copy(self):
        return StructRec(self.a.copy(), self.i)

    def __eq__(self, o):
        r = True
        for f in self.dtype.names:
            e = self[f] == o[f]
            if hasattr(e, 'all'):
                e = e.all()
            r = (r & e) if not isinstance(r, bool) or not isinstance(e, (bool, np.bool_)) else bool(r and e)
        return r
    __hash__ = None


class StructBlock:
    """the records as memory of the encoded C++ code"""
    __slots__ = ('a', 'name')

    def __init__(self, a):
        self.a = a
        self.name = 'records'

    @property
    def size(self):
        return self.a.nbytes

    def chk(self, off, n):
        if off < 0 or off + n > self.size:
            raise MemoryError('access outside of an array of %d records' % len(self.a))

    def at(self, off, n):
        self.chk(off, n)
        i, rem = divmod(off, self.a.dtype.itemsize)
        l = self.a.leaf(rem)
        if l is None or l[3] != n:
            raise SymEscape('access of %d bytes at %d of a record' % (n, rem))
        return l[0], (i,) + l[1], l[2]

    def load(self, off, n, kind):
        c, ix, k = self.at(off, n)
        v = c[ix if len(ix) > 1 else ix[0]]
        if isinstance(v, np.integer):
            v = int(v)
        elif isinstance(v, np.floating):
            v = float(v)
        if k != kind:
            raise SymEscape('load of reinterpreted memory')
        return v

    def store(self, off, n, kind, v):
        from . import irexec
        if v is irexec.UNDEF:
            raise SymEscape('undefined value stored into an array')
        c, ix, k = self.at(off, n)
        if k != kind:
            raise SymEscape('store of reinterpreted memory')
        c[ix if len(ix) > 1 else ix[0]] = v

    def items(self, off, n):
        self.chk(off, n)
        out = []
        sz = self.a.dtype.itemsize
        for i in range(len(self.a)):
            for o in self.a.leaves():
                p = i * sz + o
                if off <= p < off + n:
                    l = self.a.leaf(o)
                    out.append((p - off, l[3], l[2], self.load(p, l[3], l[2])))
        return out

    def clear(self, off, n):
        self.chk(off, n)

    def setzero(self, off, n):
        self.chk(off, n)
        for rel, s, k, v in self.items(off, n):
            self.store(off + rel, s, k, 0.0 if k == 'f' else 0)
