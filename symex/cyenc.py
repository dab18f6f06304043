"""Encodes Cython functions: a .pyx file of the current tree is parsed with Cython's own
parser and turned into Python with C semantics (typed integers, pointers, typed buffers),
which then runs on symbolic values like the rest of the code.  C and C++ functions it
calls go to the LLVM-IR executor (symex.irexec)."""
import builtins
import os
import subprocess
import sys
import tempfile

import numpy as np

from . import core, shims, symnp
from .core import Sym, SymBool, SymEscape, ite
from .structarr import StructArr, StructBlock

INTS = {'int8_t': (8, 1), 'uint8_t': (8, 0), 'int16_t': (16, 1), 'uint16_t': (16, 0),
        'int32_t': (32, 1), 'uint32_t': (32, 0), 'int64_t': (64, 1), 'uint64_t': (64, 0),
        'size_t': (64, 0), 'ssize_t': (64, 1), 'Py_ssize_t': (64, 1),
        'npy_int16': (16, 1), 'npy_int32': (32, 1), 'npy_uint8': (8, 0), 'npy_int': (32, 1),
        'npy_long': (64, 1), 'npy_int64': (64, 1), 'npy_uint16': (16, 0), 'npy_uint32': (32, 0),
        'OSErr': (16, 1), 'Seconds': (64, 1), 'LEType': (32, 1), 'LEStatus': (16, 1)}
DBL = {'double', 'npy_double', 'float64_t', 'npy_float64', 'double_t', 'float_t', 'float',
       'npy_float', 'float32_t'}


# ---------------------------------------------------------------------------
# runtime

class Null:
    def __bool__(self): return False
    def __eq__(self, o): return isinstance(o, Null) or o is None
    __hash__ = object.__hash__


NULL = Null()


class Cell:
    """a scalar whose address is taken"""
    __slots__ = ('v', 'size')

    def __init__(self, v=None, size=8):
        self.v = v
        self.size = size

    def __getitem__(self, i):
        if i != 0:
            raise IndexError('pointer to a scalar used at offset %s' % i)
        if self.v is None:
            raise SymEscape('read of an uninitialised C variable')
        return self.v

    def __setitem__(self, i, v):
        if i != 0:
            raise IndexError('pointer to a scalar used at offset %s' % i)
        self.v = v


class Ptr:
    """pointer into flat storage; a symbolic index reads a case distinction"""
    __slots__ = ('buf', 'off', 'size', 'kind')

    def __init__(self, buf, off=0, size=8, kind='d'):
        self.buf = buf
        self.off = off
        self.size = size
        self.kind = kind

    def __bool__(self): return True

    def __len__(self):
        return len(self.buf)

    def __add__(self, n):
        return Ptr(self.buf, self.off + n, self.size, self.kind)

    def _ix(self, i):
        i = self.off + i
        n = len(self.buf)
        if isinstance(i, Sym):
            cx = core.ctx()
            if not cx.branch(core.boolz((i >= 0) & (i < n))):
                raise IndexError('read or write outside of the C array')
            c = core.const_of(core.z3.simplify(i.z))
            if c is not None:
                return int(c)
            return i
        i = int(i)
        if i < 0 or i >= n:
            raise IndexError('read or write outside of the C array')
        return i

    def __getitem__(self, i):
        i = self._ix(i)
        if isinstance(i, Sym):
            r = self.buf[0]
            for k in range(1, len(self.buf)):
                r = ite(i == k, self.buf[k], r)
            return r
        v = self.buf[i]
        if v is None:
            raise SymEscape('read of uninitialised C memory')
        return v

    def __setitem__(self, i, v):
        i = self._ix(i)
        if isinstance(i, Sym):
            for k in range(len(self.buf)):
                self.buf[k] = ite(i == k, v, self.buf[k])
        else:
            self.buf[i] = v


class Flat:
    """flat view of a C-contiguous array"""
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __len__(self):
        return self.a.size

    def __getitem__(self, i):
        return self.a[np.unravel_index(i, self.a.shape)]

    def __setitem__(self, i, v):
        self.a[np.unravel_index(i, self.a.shape)] = v


class StructPtr:
    """address of a record"""
    def __init__(self, a, off):
        self.a, self.off = a, off


class Raw:
    def __init__(self, n):
        self.n = n


def addr(a, ix, size, kind):
    """&a[ix]"""
    if isinstance(a, symnp.RecView):
        k = int(ix[0] if isinstance(ix, tuple) else ix)
        if not 0 <= k < len(a):
            raise IndexError('address of an element outside of the array')
        return Ptr(Flat(a.arr), k * a.arr.shape[1], 8, 'd')
    if isinstance(a, Ptr):
        return a + ix
    if isinstance(a, StructArr):
        return StructPtr(a, a._ix(ix[0] if isinstance(ix, tuple) else ix) * a.itemsize)
    a0 = symnp.raw(a)
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = tuple(int(i) for i in ix)
    k = int(np.ravel_multi_index(ix, a0.shape))   # raises outside of the array
    if not a0.flags['C_CONTIGUOUS']:
        raise SymEscape('address of a non-contiguous array')
    return Ptr(Flat(a), k, size, kind)


def ptr_cast(x, size, kind):
    if isinstance(x, Raw):
        return Ptr([None] * (int(x.n) // size), 0, size, kind)
    if isinstance(x, Ptr):
        return Ptr(x.buf, x.off, size, kind)
    return x


def mview(a):
    if isinstance(a, np.ndarray):
        return symnp._real_ndarray.view(a)
    return a


def carray(n, size, kind):
    return Ptr([None] * n, 0, size, kind)


def c_int(x, bits, signed):
    if isinstance(x, SymBool):
        return x._num()
    if isinstance(x, Sym):
        return x if x.is_int else Sym(core.trunc_z(x.z))
    if isinstance(x, np.ndarray):
        return c_int(symnp.raw(x)[()], bits, signed)
    v = int(x)
    if signed:
        if not -(1 << (bits - 1)) <= v < (1 << (bits - 1)):
            raise OverflowError('value too large to convert to a C integer')
    elif not 0 <= v < (1 << bits):
        raise OverflowError("value does not fit an unsigned C integer")
    return v


def c_dbl(x):
    if isinstance(x, SymBool):
        x = x._num()
    if isinstance(x, Sym):
        return Sym(core.to_real(x.z))
    if isinstance(x, np.ndarray):
        return c_dbl(symnp.raw(x)[()])
    return float(x)


def c_bool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def c_div(a, b):
    """div() of libc: truncates"""
    class R:
        pass
    r = R()
    if isinstance(a, Sym) or isinstance(b, Sym):
        if not isinstance(b, Sym):
            if b <= 0:
                raise SymEscape('div by a non-positive number')
        elif not bool(b > 0):
            raise SymEscape('div by a non-positive number')
        q = ite(a >= 0, a // b, -((-a) // b))
        r.quot, r.rem = q, a - q * b
    else:
        q = abs(a) // abs(b)
        q = q if (a >= 0) == (b >= 0) else -q
        r.quot, r.rem = q, a - q * b
    return r


def c_not(x):
    if isinstance(x, SymBool):
        return ~x
    if isinstance(x, Sym):
        return x == 0
    return not x


def c_assign(buf, ix, v):
    buf[ix] = v


RT = dict(_Cell=Cell, _Ptr=Ptr, _addr=addr, _ptr_cast=ptr_cast, _carray=carray, _mview=mview, _int=c_int,
          _dbl=c_dbl, _bool=c_bool, _Raw=Raw, NULL=NULL, div=c_div,
          PyMem_Malloc=Raw, PyMem_Free=lambda p: None, malloc=Raw, free=lambda p: None)


# ---------------------------------------------------------------------------
# C++ objects (see irexec)

# ---------------------------------------------------------------------------
# translation

class K:
    """a C type"""
    def __init__(self, tag, bits=0, signed=1, of=None, n=None, name=None):
        self.tag, self.bits, self.signed, self.of, self.n, self.name = tag, bits, signed, of, n, name

    @property
    def size(self):
        return {'int': self.bits // 8, 'dbl': 8, 'flt': 4, 'bool': 1, 'ptr': 8}.get(self.tag, 8)

    @property
    def kind(self):
        return {'int': 'i', 'dbl': 'd', 'flt': 'd', 'bool': 'b'}.get(self.tag, 'p')

    @property
    def scalar(self):
        return self.tag in ('int', 'dbl', 'flt', 'bool')


OBJ = K('obj')


class Unsupported(Exception):
    pass


def parse_pyx(fn, pxd=False):
    from Cython.Compiler.Main import Context, CompilationOptions, default_options
    from Cython.Compiler import Parsing
    from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
    opts = CompilationOptions(default_options, language_level=3)
    ctx = Context.from_options(opts)
    src = FileSourceDescriptor(fn)
    with open(fn, encoding='utf8') as f:
        s = PyrexScanner(f, src, source_encoding='utf8',
                         scope=ctx.find_module('x', pos=(src, 1, 0), need_pxd=0), context=ctx)
        return Parsing.p_module(s, 1 if pxd else 0, 'x')


class Tr:
    def __init__(self, modname, fn):
        self.modname = modname
        self.fn = fn
        self.out = []
        self.ind = 0
        self.scope = None
        self.types = {}           # cdef classes' attribute types by name (C pointers)
        self.cfuncs = set()       # C functions declared extern or cimported
        self.news = set()         # C++ classes created
        self.enums = set()
        self.structs = {}
        self.members = set()
        self.retk = OBJ
        self.cimported = {}       # name -> module
        self.unsupported = {}
        self.externs = []
        self.extern_vars = []

    # -- types
    def ktype(self, base, decl=None):
        k = self.kbase(base)
        while decl is not None:
            t = type(decl).__name__
            if t == 'CNameDeclaratorNode':
                return k, decl.name
            if t == 'CPtrDeclaratorNode':
                k = K('ptr', of=k)
                decl = decl.base
            elif t == 'CArrayDeclaratorNode':
                n = self.expr(decl.dimension) if decl.dimension is not None else None
                k = K('carr', of=k, n=n)
                decl = decl.base
            elif t == 'CReferenceDeclaratorNode':
                decl = decl.base
            elif t == 'CFuncDeclaratorNode':
                return K('func', of=k), decl.base.name
            else:
                raise Unsupported(t)
        return k, None

    def kbase(self, b):
        t = type(b).__name__
        if t == 'CSimpleBaseTypeNode':
            n = b.name
            if n is None:
                return OBJ
            if b.is_basic_c_type:
                if n == 'int':
                    bits = {0: 32, 1: 64, 2: 64, -1: 16}[b.longness]
                    return K('int', bits, b.signed if b.signed != 2 else 1)
                if n == 'char':
                    return K('int', 8, 1 if b.signed else 0)
                if n in ('double', 'float'):
                    return K('dbl')
                if n == 'bint':
                    return K('bool')
                if n == 'void':
                    return K('void')
                if n in INTS:
                    return K('int', *INTS[n])
                return OBJ
            if n in INTS:
                return K('int', *INTS[n])
            if n in DBL:
                return K('dbl')
            if n in ('bool', 'bint', 'bool_t'):
                return K('bool')
            if n in ('short',):
                return K('int', 16, 1)
            if n in ('long',):
                return K('int', 64, 1)
            if n in ('unsigned',):
                return K('int', 32, 0)
            if n in self.structs:
                return K('struct', name=n)
            return K('other', name=n)
        if t in ('TemplatedTypeNode', 'MemoryViewSliceTypeNode'):
            if t == 'MemoryViewSliceTypeNode':
                return K('mview', of=self.kbase(b.base_type_node))
            else:
                of = OBJ
                if b.positional_args:
                    a = b.positional_args[0]
                    if type(a).__name__ == 'IntNode':
                        return K('carr', of=self.kbase(b.base_type_node), n=a.value)
                    of = self.kofexpr(a)
            return K('buf', of=of)
        if t == 'CComplexBaseTypeNode':
            k, _ = self.ktype(b.base_type, b.declarator)
            return k
        raise Unsupported('type ' + t)

    def kofexpr(self, a):
        t = type(a).__name__
        if t == 'NameNode':
            n = a.name
        elif t == 'AttributeNode':
            n = a.attribute
        elif t == 'CComplexBaseTypeNode' or t == 'CSimpleBaseTypeNode':
            return self.kbase(a)
        else:
            raise Unsupported('template argument ' + t)
        if n in INTS:
            return K('int', *INTS[n])
        if n in DBL:
            return K('dbl')
        if n == 'char':
            return K('int', 8, 1)
        if n == 'int':
            return K('int', 32, 1)
        if n == 'short':
            return K('int', 16, 1)
        if n == 'long':
            return K('int', 64, 1)
        return K('other', name=n)

    def coerce(self, k, e):
        if k.tag == 'int':
            return '_int(%s, %d, %d)' % (e, k.bits, k.signed)
        if k.tag in ('dbl', 'flt'):
            return '_dbl(%s)' % e
        if k.tag == 'bool':
            return '_bool(%s)' % e
        if k.tag == 'mview':
            return '_mview(%s)' % e
        return e

    # -- output
    def w(self, s):
        self.out.append('    ' * self.ind + s)

    # -- expressions
    def expr(self, n):
        t = type(n).__name__
        f = getattr(self, 'x_' + t, None)
        if f is None:
            raise Unsupported('expression ' + t)
        return f(n)

    def x_NameNode(self, n):
        if self.scope is not None and n.name in self.scope.cells:
            return n.name + '.v'
        return n.name

    def x_IntNode(self, n): return n.value
    def x_FloatNode(self, n): return n.value
    def x_BoolNode(self, n): return 'True' if n.value else 'False'
    def x_NoneNode(self, n): return 'None'
    def x_NullNode(self, n): return 'NULL'
    def x_UnicodeNode(self, n): return repr(str(n.value))
    def x_StringNode(self, n): return repr(str(n.value))
    def x_BytesNode(self, n): return repr(bytes(n.value.byteencode()))
    def x_IdentifierStringNode(self, n): return repr(str(n.value))
    def x_EllipsisNode(self, n): return '...'

    def x_AttributeNode(self, n):
        self.members.add(n.attribute)
        return '%s.%s' % (self.expr(n.obj), n.attribute)

    def x_IndexNode(self, n):
        return '%s[%s]' % (self.expr(n.base), self.index(n.index))

    def index(self, i):
        t = type(i).__name__
        if t == 'TupleNode':
            return ', '.join(self.expr(a) for a in i.args) + (',' if len(i.args) == 1 else '')
        return self.expr(i)

    def x_SliceIndexNode(self, n):
        return '%s[%s:%s]' % (self.expr(n.base), self.expr(n.start) if n.start is not None else '',
                              self.expr(n.stop) if n.stop is not None else '')

    def x_SliceNode(self, n):
        def o(x):
            return 'None' if x is None else self.expr(x)
        return 'slice(%s, %s, %s)' % (o(n.start), o(n.stop), o(n.step))

    def x_SimpleCallNode(self, n):
        fname = getattr(n.function, 'name', None)
        return '%s(%s)' % (self.expr(n.function), ', '.join(self.expr(a) for a in n.args))

    def x_GeneralCallNode(self, n):
        pos = n.positional_args
        pt = type(pos).__name__
        if pt == 'TupleNode':
            a = [self.expr(x) for x in pos.args]
        elif pt == 'AsTupleNode':
            a = ['*' + self.expr(pos.arg)]
        else:
            raise Unsupported('call with ' + pt)
        kw = n.keyword_args
        if kw is not None:
            if type(kw).__name__ == 'DictNode':
                for it in kw.key_value_pairs:
                    a.append('%s=%s' % (it.key.value, self.expr(it.value)))
            else:
                a.append('**' + self.expr(kw))
        return '%s(%s)' % (self.expr(n.function), ', '.join(a))

    def x_MergedDictNode(self, n):
        return '{' + ', '.join('**' + self.expr(x) for x in n.keyword_args) + '}'

    def x_TupleNode(self, n):
        return '(%s%s)' % (', '.join(self.expr(a) for a in n.args), ',' if len(n.args) == 1 else '')

    def x_ListNode(self, n): return '[%s]' % ', '.join(self.expr(a) for a in n.args)
    def x_SetNode(self, n): return '{%s}' % ', '.join(self.expr(a) for a in n.args)

    def x_DictNode(self, n):
        return '{%s}' % ', '.join('%s: %s' % (self.expr(i.key), self.expr(i.value))
                                  for i in n.key_value_pairs)

    def binop(self, n, op=None):
        return '(%s %s %s)' % (self.expr(n.operand1), op or n.operator, self.expr(n.operand2))

    x_AddNode = x_SubNode = x_MulNode = x_ModNode = x_PowNode = binop
    x_IntBinopNode = x_BitwiseOrNode = binop
    x_BoolBinopNode = binop

    def x_DivNode(self, n):
        return self.binop(n)

    def x_NotNode(self, n): return '(not %s)' % self.expr(n.operand)
    def x_UnaryMinusNode(self, n): return '(-%s)' % self.expr(n.operand)
    def x_UnaryPlusNode(self, n): return self.expr(n.operand)
    def x_TildeNode(self, n): return '(~%s)' % self.expr(n.operand)

    def x_PrimaryCmpNode(self, n):
        s = '(%s %s %s' % (self.expr(n.operand1), self.cmpop(n.operator), self.expr(n.operand2))
        c = n.cascade
        while c is not None:
            s += ' %s %s' % (self.cmpop(c.operator), self.expr(c.operand2))
            c = c.cascade
        return s + ')'

    def cmpop(self, o):
        return {'is_not': 'is not', 'not_in': 'not in'}.get(o, o)

    def x_CondExprNode(self, n):
        return '(%s if %s else %s)' % (self.expr(n.true_val), self.expr(n.test or n.condition),
                                       self.expr(n.false_val))

    def x_JoinedStrNode(self, n): return repr('...')

    def x_ImportNode(self, n):
        raise Unsupported('import expression')

    def x_AmpersandNode(self, n):
        o = n.operand
        t = type(o).__name__
        if t == 'NameNode':
            k = self.scope.types.get(o.name, OBJ)
            if k.tag == 'struct':
                return o.name
            return o.name
        if t == 'IndexNode':
            base = self.expr(o.base)
            k = OBJ
            if type(o.base).__name__ == 'NameNode':
                k = self.scope.types.get(o.base.name, OBJ)
            of = k.of or K('dbl')
            return '_addr(%s, (%s), %d, %r)' % (base, self.index(o.index), of.size, of.kind)
        raise Unsupported('address of ' + t)

    def x_TypecastNode(self, n):
        k, _ = self.ktype(n.base_type, n.declarator)
        e = self.expr(n.operand)
        if k.tag == 'ptr':
            of = k.of
            if of.tag == 'other':
                return e
            return '_ptr_cast(%s, %d, %r)' % (e, of.size, of.kind)
        return self.coerce(k, e)

    def x_SizeofTypeNode(self, n):
        k, _ = self.ktype(n.base_type, n.declarator)
        if k.tag == 'other' and k.name:
            return '_sizeof(%r)' % k.name
        return str(k.size)

    def x_SizeofVarNode(self, n):
        o = n.operand
        nm = getattr(o, 'name', None)
        if nm in INTS:
            return str(INTS[nm][0] // 8)
        if nm and nm not in DBL and (self.scope is None or nm not in self.scope.types):
            return '_sizeof(%r)' % nm
        return '8'

    def x_NewExprNode(self, n):
        cls = n.cppclass.name
        self.news.add(cls)
        return '_new(%r)' % cls

    def x_LambdaNode(self, n):
        raise Unsupported('lambda')

    def x_ComprehensionNode(self, n):
        loop = n.loop
        t = type(n.loop).__name__
        if t != 'ForInStatNode':
            raise Unsupported('comprehension')
        conds = []
        body = loop.body
        while type(body).__name__ in ('IfStatNode', 'StatListNode'):
            if type(body).__name__ == 'StatListNode':
                body = body.stats[0]
                continue
            conds.append(self.expr(body.if_clauses[0].condition))
            body = body.if_clauses[0].body
        o, c = {'list': '[]', 'set': '{}'}.get(n.type.name if n.type else 'list', '[]')
        return '%s%s for %s in %s%s%s' % (o, self.expr(body.expr), self.target(loop.target),
                                          self.expr(loop.iterator.sequence),
                                          ''.join(' if ' + x for x in conds), c)

    def x_IteratorNode(self, n): return self.expr(n.sequence)
    def x_ProxyNode(self, n): return self.expr(n.arg)
    def x_CoerceToBooleanNode(self, n): return self.expr(n.arg)

    # -- targets
    def target(self, n):
        t = type(n).__name__
        if t in ('TupleNode', 'ListNode'):
            return '(%s,)' % ', '.join(self.target(a) for a in n.args)
        if t == 'StarredUnpackingNode':
            return '*' + self.target(n.target)
        return self.expr(n)

    def names(self, n):
        t = type(n).__name__
        if t == 'NameNode':
            return [n.name]
        if t in ('TupleNode', 'ListNode'):
            return [x for a in n.args for x in self.names(a)]
        return []

    def fix(self, lhs):
        """coerce typed names after an unpacking"""
        for x in self.names(lhs):
            k = self.scope.types.get(x) if self.scope else None
            if k is not None and k.scalar:
                v = x + '.v' if x in self.scope.cells else x
                self.w('%s = %s' % (v, self.coerce(k, v)))

    def assign(self, lhs, e):
        t = type(lhs).__name__
        if t == 'NameNode' and self.scope is not None:
            k = self.scope.types.get(lhs.name)
            if k is not None and (k.scalar or k.tag == 'mview'):
                e = self.coerce(k, e)
        elif t == 'IndexNode' and self.scope is not None and type(lhs.base).__name__ == 'NameNode':
            k = self.scope.types.get(lhs.base.name)
            if k is not None and k.of is not None and k.of.scalar:
                e = self.coerce(k.of, e)
        self.w('%s = %s' % (self.target(lhs), e))
        if t in ('TupleNode', 'ListNode'):
            self.fix(lhs)

    # -- statements
    def stmt(self, n):
        t = type(n).__name__
        f = getattr(self, 's_' + t, None)
        if f is None:
            raise Unsupported('statement ' + t)
        f(n)

    def block(self, n):
        self.ind += 1
        m = len(self.out)
        if n is not None:
            self.stmt(n)
        if len(self.out) == m:
            self.w('pass')
        self.ind -= 1

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stmt(s)

    def s_PassStatNode(self, n): self.w('pass')
    def s_BreakStatNode(self, n): self.w('break')
    def s_ContinueStatNode(self, n): self.w('continue')
    def s_GlobalNode(self, n): self.w('global ' + ', '.join(n.names))
    def s_CDefExternNode(self, n): self.externs.append(n)
    def s_CStructOrUnionDefNode(self, n): pass
    def s_CEnumDefNode(self, n): pass
    def s_CTypeDefNode(self, n): pass
    def s_CImportStatNode(self, n):
        self.cimported[n.as_name or n.module_name.split('.')[0]] = n.module_name

    def s_FromCImportStatNode(self, n):
        mod = n.module_name
        if (getattr(n, 'relative_level', 0) or 0) > 0 and not mod.startswith('.'):
            mod = '.' * n.relative_level + mod
        for i in n.imported_names:
            if i[1] == '*' and not mod.startswith('.'):
                continue
            self.cimported[i[2] or i[1]] = (mod, i[1])

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == 'ImportNode':
            m = n.rhs.module_name.value
            self.w('import %s%s' % (m, ' as ' + n.lhs.name if n.lhs.name != m.split('.')[0] else ''))
            return
        self.assign(n.lhs, self.expr(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        self.w('_tmp = ' + self.expr(n.rhs))
        for l in n.lhs_list:
            self.assign(l, '_tmp')

    def s_ParallelAssignmentNode(self, n):
        for s in n.stats:
            self.stmt(s)

    def s_InPlaceAssignmentNode(self, n):
        self.assign(n.lhs, '(%s %s %s)' % (self.expr(n.lhs), n.operator, self.expr(n.rhs))) \
            if type(n.lhs).__name__ == 'NameNode' and self.scope is not None and \
            (self.scope.types.get(n.lhs.name) or OBJ).scalar \
            else self.w('%s %s= %s' % (self.target(n.lhs), n.operator, self.expr(n.rhs)))

    def s_ExprStatNode(self, n): self.w(self.expr(n.expr))

    def s_ReturnStatNode(self, n):
        if n.value is None:
            self.w('return None')
        else:
            self.w('return ' + self.coerce(self.retk, self.expr(n.value)))

    def s_RaiseStatNode(self, n):
        self.w('raise ' + (self.expr(n.exc_type) if n.exc_type is not None else ''))

    def s_AssertStatNode(self, n):
        self.w('assert ' + self.expr(n.condition))

    def s_DelStatNode(self, n):
        self.w('pass')

    def s_IfStatNode(self, n):
        kw = 'if'
        for c in n.if_clauses:
            self.w('%s %s:' % (kw, self.expr(c.condition)))
            self.block(c.body)
            kw = 'elif'
        if n.else_clause is not None:
            self.w('else:')
            self.block(n.else_clause)

    def s_WhileStatNode(self, n):
        self.w('while %s:' % (self.expr(n.condition) if n.condition is not None else 'True'))
        self.block(n.body)
        if n.else_clause is not None:
            self.w('else:')
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        it = n.iterator
        self.w('for %s in %s:' % (self.target(n.target), self.expr(it)))
        self.block(n.body)
        if n.else_clause is not None:
            self.w('else:')
            self.block(n.else_clause)

    def s_TryExceptStatNode(self, n):
        self.w('try:')
        self.block(n.body)
        for c in n.except_clauses:
            pat = c.pattern
            if not pat:
                self.w('except Exception:')
            else:
                s = ', '.join(self.expr(p) for p in pat)
                self.w('except (%s)%s:' % (s, ' as ' + c.target.name if c.target is not None else ''))
            self.block(c.body)
        if n.else_clause is not None:
            self.w('else:')
            self.block(n.else_clause)

    def s_TryFinallyStatNode(self, n):
        self.w('try:')
        self.block(n.body)
        self.w('finally:')
        self.block(n.finally_clause)

    def s_GILStatNode(self, n): self.stmt(n.body)

    def s_FromImportStatNode(self, n):
        m = n.module
        lvl = '.' * (m.level if m.level and m.level > 0 else 0)
        for name, tgt in n.items:
            if name == '*':
                self.w('from %s%s import *' % (lvl, m.module_name.value))
            else:
                self.w('from %s%s import %s as %s' % (lvl, m.module_name.value, name, tgt.name))

    def s_CVarDefNode(self, n):
        if self.scope is None and n.visibility == 'extern':
            self.extern_vars.append(n)
            return
        for d in n.declarators:
            try:
                k, name = self.ktype(n.base_type, d)
            except Unsupported:
                if self.scope is None:
                    continue
                raise
            if k.tag == 'func':
                continue
            if self.scope is None:
                self.w('%s = None' % name)
                continue
            default = getattr(d, 'default', None)
            base = d
            while default is None and hasattr(base, 'base'):
                base = base.base
                default = getattr(base, 'default', None)
            if k.tag == 'carr':
                self.w('%s = _carray(%s, %d, %r)' % (name, k.n, k.of.size, k.of.kind))
            elif k.tag == 'struct':
                self.w('%s = _struct(%r)' % (name, k.name))
            elif k.tag == 'other' and k.name and default is None:
                self.w('%s = _local(%r)' % (name, k.name))
            elif name in self.scope.cells:
                self.w('%s = _Cell(%s, %d)' % (name, self.coerce(k, self.expr(default))
                                               if default is not None else None, k.size))
            elif default is not None:
                self.w('%s = %s' % (name, self.coerce(k, self.expr(default))))

    # -- functions
    def collect(self, n, types, cells):
        if n is None:
            return
        if isinstance(n, (list, tuple)):
            for x in n:
                self.collect(x, types, cells)
            return
        if not hasattr(n, 'child_attrs'):
            return
        t = type(n).__name__
        if t == 'CVarDefNode':
            for d in n.declarators:
                k, name = self.ktype(n.base_type, d)
                types[name] = k
        if t == 'AmpersandNode' and type(n.operand).__name__ == 'NameNode':
            cells.add(n.operand.name)
        for a in n.child_attrs:
            self.collect(getattr(n, a, None), types, cells)

    def function(self, name, args, body, ret=OBJ, star=None, starstar=None, decorators=(),
                 doc=None, cls=False):
        saved = (self.scope, self.retk, len(self.out), self.ind)

        class Scope:
            pass
        sc = Scope()
        sc.types, sc.cells = {}, set()
        try:
            params, pre = [], []
            for a in args:
                k, an = self.ktype(a.base_type, a.declarator)
                if an in (None, ''):
                    # untyped argument: the name is parsed as the type
                    an, k = a.base_type.name, OBJ
                sc.types[an] = k
                s = an
                if getattr(a, 'default', None) is not None:
                    s += '=' + self.expr(a.default)
                params.append(s)
                if k.scalar or k.tag == 'mview':
                    pre.append('%s = %s' % (an, self.coerce(k, an)))
                if getattr(a, 'not_none', False):
                    pre.append('if %s is None: raise TypeError("None not allowed")' % an)
            self.collect(body, sc.types, sc.cells)
            sc.cells = {c for c in sc.cells if sc.types.get(c, OBJ).scalar or
                        sc.types.get(c, OBJ).tag == 'ptr'}
            for a in args:
                pass
            self.scope, self.retk = sc, ret
            if star is not None:
                params.append('*' + star)
            if starstar is not None:
                params.append('**' + starstar)
            for d in decorators:
                self.w('@' + d)
            self.w('def %s(%s):' % (name, ', '.join(params)))
            self.ind += 1
            for p in pre:
                self.w(p)
            for a in args:
                an = self.ktype(a.base_type, a.declarator)[1]
                if an in sc.cells:
                    self.w('%s = _Cell(%s)' % (an, an))
            self.ind -= 1
            self.block(body)
        except Unsupported as e:
            del self.out[saved[2]:]
            self.ind = saved[3]
            self.unsupported[name] = str(e)
            self.w('def %s(*a, **k):' % name)
            self.w('    raise _SymEscape(%r)' % ('cython function %s: %s' % (name, e)))
        finally:
            self.scope, self.retk, self.ind = saved[0], saved[1], saved[3]

    def s_DefNode(self, n):
        decs = []
        for d in (n.decorators or ()):
            e = self.expr(d.decorator)
            if not e.startswith('cython.'):
                decs.append(e)
        self.function(n.name, n.args, n.body, OBJ,
                      n.star_arg.name if n.star_arg else None,
                      n.starstar_arg.name if n.starstar_arg else None, decs)

    def s_CFuncDefNode(self, n):
        decl = n.declarator
        base = n.base_type
        k = self.kbase(base)
        while type(decl).__name__ == 'CPtrDeclaratorNode':
            k = K('ptr', of=k)
            decl = decl.base
        if k.tag not in ('int', 'dbl', 'bool'):
            k = OBJ
        self.function(decl.base.name, decl.args, n.body, k)

    def s_PropertyNode(self, n):
        acc = {}
        for d in (n.body.stats if hasattr(n.body, 'stats') else [n.body]):
            if type(d).__name__ != 'DefNode':
                continue
            nm = {'__get__': 'get', '__set__': 'set', '__del__': 'del'}[d.name]
            f = '_p_%s_%s' % (nm, n.name)
            acc[nm] = f
            self.function(f, d.args, d.body)
        self.w('%s = property(%s, %s)' % (n.name, acc.get('get', 'None'), acc.get('set', 'None')))

    def s_CClassDefNode(self, n):
        bases = []
        if n.bases is not None:
            bases = [self.expr(b) for b in n.bases.args]
        self.w('class %s(%s):' % (n.class_name, ', '.join(b for b in bases if b != 'object') or '_CyObject'))
        self.ind += 1
        m = len(self.out)
        if n.body is not None:
            for s in (n.body.stats if hasattr(n.body, 'stats') else [n.body]):
                if type(s).__name__ == 'CVarDefNode':
                    for d in s.declarators:
                        try:
                            k, nm = self.ktype(s.base_type, d)
                        except Unsupported:
                            continue
                        if k.tag != 'func':
                            init = {'int': '0', 'dbl': '0.0', 'bool': 'False', 'ptr': 'NULL'}.get(k.tag, 'None')
                            self.w('%s = %s' % (nm, init))
                    continue
                self.stmt(s)
        if len(self.out) == m:
            self.w('pass')
        self.ind -= 1

    def s_PyClassDefNode(self, n):
        raise Unsupported('python class')

    def module(self):
        tree = parse_pyx(self.fn)
        for s in tree.body.stats:
            mark, ind = len(self.out), self.ind
            try:
                self.stmt(s)
            except Unsupported as e:
                del self.out[mark:]
                self.ind = ind
                self.unsupported['line %d' % s.pos[1]] = str(e)
        return '\n'.join(self.out) + '\n'


class CyMeta(type):
    """cdef classes: every __cinit__ runs, base first, before __init__"""
    def __call__(cls, *a, **k):
        o = cls.__new__(cls)
        for c in reversed(cls.__mro__):
            f = c.__dict__.get('__cinit__')
            if f is not None:
                n = f.__code__.co_argcount
                if n == 1 and not f.__code__.co_flags & 0x0c:
                    f(o)
                else:
                    f(o, *a, **k)
        o.__init__(*a, **k)
        return o


class CyObject(metaclass=CyMeta):
    def __init__(self, *a, **k):
        pass


MODS = {}
LOADED = {}


def load(modname):
    """the encoded module (its namespace)"""
    if modname in LOADED:
        return LOADED[modname]
    import importlib
    real = importlib.import_module(modname)
    fn = os.path.join(os.path.dirname(os.path.dirname(sys.modules['gnome'].__file__)),
                      *modname.split('.')) + '.pyx'
    tr = Tr(modname, os.path.realpath(fn))
    src = tr.module()
    ns = {'__name__': modname, '__package__': modname.rpartition('.')[0],
          '__file__': fn, '_SymEscape': SymEscape, '_CyObject': CyObject}
    ns.update(RT)
    LOADED[modname] = ns
    ns['__tr__'] = tr
    ns['__src__'] = src
    # C enums and cimported names
    for as_name, m in list(tr.cimported.items()):
        if isinstance(m, tuple):
            mod, name = m
            if name == '*':
                if mod.endswith('type_defs'):
                    ns.update(enums())
                continue
            if mod == 'libc.math' or mod == 'libc.stdlib':
                f = {'abs': shims.abs_shim}.get(name) or getattr(shims.math_shim, name, None)
                if f is not None and name not in RT:
                    ns[as_name] = f
            elif mod.startswith(('.cy_', 'cy_', 'gnome.')):
                sub = mod if mod.startswith('gnome.') else 'gnome.cy_gnome.' + mod.lstrip('.')
                d = load(sub)
                if name in d:
                    ns[as_name] = d[name]
            elif mod.endswith('type_defs') and name in enums():
                ns[as_name] = enums()[name]
        elif m.endswith('type_defs'):
            ns[as_name] = Enums()
        elif m.startswith('gnome.') or m.startswith('.'):
            sub = m if m.startswith('gnome.') else 'gnome.cy_gnome.' + m.lstrip('.')
            try:
                d = load(sub)
                ns[as_name] = _NS(d)
                for part in (sub,):
                    pass
            except (ImportError, OSError):
                pass
    from . import irexec
    irexec.bind(tr, ns)
    code = compile(src, '/verif-encoded/' + '/'.join(modname.split('.')) + '.pyx.py', 'exec')
    exec(code, ns)
    shims.apply_ns(ns)
    return ns


class _NS:
    def __init__(self, d):
        self.__dict__ = d


_enum_cache = None


def enums():
    """values of the enumerators type_defs.pxd declares, from the current headers"""
    global _enum_cache
    if _enum_cache is None:
        from .native import SRC
        pxd = os.path.join(SRC, 'gnome', 'cy_gnome', 'type_defs.pxd')
        names = []

        def walk(n):
            if isinstance(n, (list, tuple)):
                for x in n:
                    walk(x)
                return
            if not hasattr(n, 'child_attrs'):
                return
            if type(n).__name__ == 'CEnumDefItemNode':
                names.append(n.name)
            for a in n.child_attrs:
                walk(getattr(n, a, None))
        walk(parse_pyx(pxd, True).body)
        d = tempfile.mkdtemp(prefix='verif-enum-')
        try:
            f = os.path.join(d, 'e.cpp')
            with open(f, 'w') as o:
                o.write('#include <cstdio>\n#include "Basics.h"\n#include "TypeDefs.h"\n#include "GEOMETRY.H"\nint main(){\n')
                for x in names:
                    o.write('printf("%%s %%lld\\n", "%s", (long long)%s);\n' % (x, x))
                o.write('}\n')
            from .irexec import CXXFLAGS
            subprocess.run(['clang++', '-w', '-O0', '-fsyntax-only'] + CXXFLAGS + [f], check=True)
            subprocess.run(['clang++', '-w', '-O0', '-c', '-o', os.path.join(d, 'e.o')] + CXXFLAGS + [f],
                           check=True)
            subprocess.run(['clang++', '-o', os.path.join(d, 'e'), os.path.join(d, 'e.o')], check=True)
            out = subprocess.run([os.path.join(d, 'e')], check=True, stdout=subprocess.PIPE, text=True).stdout
            _enum_cache = {l.split()[0]: int(l.split()[1]) for l in out.splitlines()}
        finally:
            import shutil
            shutil.rmtree(d, ignore_errors=True)
    return _enum_cache


class Enums:
    def __getattr__(self, n):
        try:
            return enums()[n]
        except KeyError:
            raise AttributeError(n)


def wrap_fn(real, enc):
    """symbolic arguments run the encoding; the rest runs the compiled function"""
    def g(*a, **k):
        return enc(*a, **k)
    g.__name__ = getattr(real, '__name__', 'f')
    g.__doc__ = getattr(real, '__doc__', None)
    return g


def install(P):
    import importlib
    info = {}
    for m in P.pyx:
        real = importlib.import_module(m)
        ns = load(m)
        tr = ns['__tr__']
        n = []
        for name in dir(real):
            if name.startswith('__') or name not in ns:
                continue
            rv, ev = getattr(real, name), ns[name]
            if getattr(rv, '__module__', None) != m and not (
                    callable(rv) and type(rv).__name__ in ('cython_function_or_method',
                                                           'builtin_function_or_method')):
                continue
            if isinstance(rv, type) or callable(rv):
                if ev is rv:
                    continue
                shims.register(rv, ev)
                n.append(name)
        info[m] = dict(encoded=n, not_encoded=tr.unsupported)
    return info
