"""Executes LLVM IR symbolically: the C and C++ functions the Cython layer calls are
compiled from the current tree with clang (-O0, then promotion of locals to registers) and
their IR is interpreted on symbolic values.

Floats are reals, integers are mathematical integers in their signed reading (wrapped when
concrete).  Memory is a set of blocks; arrays of the caller are shared, not copied."""
import hashlib
import math
import os
import re
import subprocess
import tempfile

import numpy as np

from . import core, shims, symnp
from .core import Sym, SymBool, SymEscape, ite
from .structarr import StructArr, StructBlock
from .native import SRC, CACHE

LIB = os.path.join(SRC, 'lib_gnome')
CXXFLAGS = ['-DpyGNOME=1', '-I' + LIB]
RAND_MAX = 2147483647


# ---------------------------------------------------------------------------
# memory

class Undef:
    def __repr__(self): return 'undef'


UNDEF = Undef()


class Block:
    """bytes with typed cells"""
    __slots__ = ('cells', 'size', 'zero', 'name')

    def __init__(self, size=None, name='', zero=False):
        self.cells = {}
        self.size = size
        self.name = name
        self.zero = set(range(size)) if zero and size is not None else set()

    def chk(self, off, n):
        if off < 0 or (self.size is not None and off + n > self.size):
            raise MemoryError('access outside of the object %s (offset %s)' % (self.name, off))

    def load(self, off, n, kind):
        self.chk(off, n)
        c = self.cells.get(off)
        if c is not None and c[1] == n:
            return conv(c[0], c[2], kind)
        if c is None and all((off + i) in self.zero for i in range(n)):
            return {'i': 0, 'f': 0.0, 'p': NULLP}[kind]
        if kind == 'i':
            # assembled from smaller concrete cells (little endian)
            r, k = 0, 0
            while k < n:
                c = self.cells.get(off + k)
                if c is None:
                    if (off + k) in self.zero:
                        k += 1
                        continue
                    return UNDEF
                if c[2] != 'i' or isinstance(c[0], (Sym, SymBool)) or k + c[1] > n:
                    if c[0] is UNDEF:
                        return UNDEF
                    raise SymEscape('load of reinterpreted memory')
                r |= (int(c[0]) & ((1 << 8 * c[1]) - 1)) << (8 * k)
                k += c[1]
            return sgn(r, 8 * n)
        if c is not None and c[0] is not UNDEF:
            raise SymEscape('load of reinterpreted memory')
        return UNDEF

    def store(self, off, n, kind, v):
        self.chk(off, n)
        for o in range(off - 15, off + n):
            c = self.cells.get(o)
            if c is not None and o + c[1] > off:
                if o < off or o + c[1] > off + n:
                    if isinstance(c[0], int) and c[2] == 'i' and not isinstance(c[0], bool):
                        # split the partly overwritten cell into bytes
                        del self.cells[o]
                        for i in range(c[1]):
                            self.cells[o + i] = (sgn((c[0] >> (8 * i)) & 255, 8), 1, 'i')
                        if off <= o < off + n:
                            del self.cells[o]
                        continue
                    raise SymEscape('store over part of another value')
                del self.cells[o]
        if n > 1:
            for i in range(1, n):
                c = self.cells.get(off + i)
                if c is not None and c[1] == 1:
                    del self.cells[off + i]
        if self.zero:
            self.zero.difference_update(range(off, off + n))
        self.cells[off] = (v, n, kind)

    def items(self, off, n):
        """(rel, size, kind, value) of the initialised cells in the range"""
        out = []
        k = off
        while k < off + n:
            c = self.cells.get(k)
            if c is not None:
                if k + c[1] > off + n:
                    raise SymEscape('copy of part of a value')
                out.append((k - off, c[1], c[2], c[0]))
                k += c[1]
            else:
                if k in self.zero:
                    out.append((k - off, 1, 'z', 0))
                k += 1
        return out

    def clear(self, off, n):
        self.chk(off, n)
        for o in [o for o in self.cells if o < off + n and o + self.cells[o][1] > off]:
            c = self.cells[o]
            if o < off or o + c[1] > off + n:
                raise SymEscape('overwrites part of a value')
            del self.cells[o]
        self.zero.difference_update(range(off, off + n))

    def setzero(self, off, n):
        self.clear(off, n)
        self.zero.update(range(off, off + n))


class ArrBlock:
    """memory of the caller: flat storage of equal items"""
    __slots__ = ('buf', 'isz', 'kind', 'name')

    def __init__(self, buf, isz, kind):
        self.buf, self.isz, self.kind = buf, isz, kind
        self.name = 'array'

    @property
    def size(self):
        return len(self.buf) * self.isz

    def chk(self, off, n):
        if off < 0 or off + n > self.size:
            raise MemoryError('access outside of an array of %d items (byte offset %d)'
                              % (len(self.buf), off))

    def ix(self, off, n):
        self.chk(off, n)
        if n != self.isz or off % self.isz:
            raise SymEscape('access of %d bytes at %d in an array of %d-byte items'
                            % (n, off, self.isz))
        return off // self.isz

    def load(self, off, n, kind):
        v = self.buf[self.ix(off, n)]
        if isinstance(v, (np.bool_, bool)):
            v = int(v)
        elif isinstance(v, np.integer):
            v = int(v)
        elif isinstance(v, np.floating):
            v = float(v)
        elif isinstance(v, SymBool):
            v = v._num()
        if v is None:
            return UNDEF
        if kind == 'f' and isinstance(v, Sym) and v.is_int:
            v = Sym(core.to_real(v.z))
        if kind == 'f' and isinstance(v, int):
            v = float(v)
        if kind == 'i' and (isinstance(v, float) or isinstance(v, Sym) and not v.is_int):
            if isinstance(v, float) and v == int(v):
                return int(v)
            raise SymEscape('float read as an integer')
        return v

    def store(self, off, n, kind, v):
        if v is UNDEF:
            raise SymEscape('undefined value stored into an array')
        self.buf[self.ix(off, n)] = v

    def items(self, off, n):
        self.chk(off, n)
        if off % self.isz or n % self.isz:
            raise SymEscape('copy of part of an array item')
        k = 'f' if self.kind == 'd' else 'i'
        return [(i, self.isz, k, self.load(off + i, self.isz, k)) for i in range(0, n, self.isz)]

    def clear(self, off, n):
        self.chk(off, n)

    def setzero(self, off, n):
        self.chk(off, n)
        for i in range(off // self.isz, (off + n) // self.isz):
            self.buf[i] = 0.0 if self.kind == 'd' else 0


class P:
    """pointer"""
    __slots__ = ('b', 'o')

    def __init__(self, b, o=0):
        self.b, self.o = b, o

    def __eq__(self, x):
        return isinstance(x, P) and self.b is x.b and (self.b is None or self.o == x.o) \
            and (self.b is not None or self.o == x.o)

    __hash__ = object.__hash__

    def __repr__(self):
        return 'P(%s+%s)' % (getattr(self.b, 'name', self.b), self.o)


class Fn:
    """address of a function"""
    __slots__ = ('name',)

    def __init__(self, name): self.name = name
    def __eq__(self, x): return isinstance(x, Fn) and x.name == self.name
    __hash__ = object.__hash__


NULLP = P(None, 0)


def sgn(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def conv(v, have, want):
    if want == 'i' and isinstance(v, P) and v.b is None:
        return v.o
    if want == 'p' and isinstance(v, int) and not isinstance(v, bool):
        return P(None, v)
    if have == want or v is UNDEF:
        return v
    if want == 'p' and have == 'i' and v == 0:
        return NULLP
    if have == 'p' and want == 'i' and isinstance(v, P):
        return v
    raise SymEscape('value of kind %s read as %s' % (have, want))


def uns(v, bits):
    """unsigned reading"""
    if isinstance(v, Sym):
        return ite(v >= 0, v, v + (1 << bits))
    return v & ((1 << bits) - 1)


# ---------------------------------------------------------------------------
# parsing

TOK = re.compile(r'''\s+|;[^\n]*|(c"(?:[^"\\]|\\..)*")|([%@]"(?:[^"])*"|[%@][-\w.$]+)|("(?:[^"])*")
    |(-?0x[KLMHR]?[0-9A-Fa-f]+)|(-?\d+\.\d*(?:e[+-]?\d+)?)|(-?\d+)|(\.\.\.)|([A-Za-z_][\w.]*)|([!#][\w.]*)|(.)''',
                 re.X | re.S)


def tokens(s):
    return [m.group(0) for m in TOK.finditer(s) if m.lastindex]


class Func:
    __slots__ = ('name', 'ret', 'params', 'body', 'mod', 'blocks', 'entry', 'byval', 'vararg')


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}      # name -> (token list of the initialiser, kind)
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = self.header(l)
                f.body = lines[i + 1:j]
                self.funcs[f.name] = f
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                if m:
                    self.decls.add(m.group(1).strip('"'))
            elif l.startswith('%') and ' = type ' in l:
                n, t = l.split(' = type ', 1)
                self.types[n[1:].strip('"')] = t
            elif l.startswith('@'):
                n, t = l.split(' = ', 1)
                n = n[1:].strip('"')
                if re.match(r'(\w+ )*alias ', t):
                    self.aliases[n] = t
                else:
                    self.globals[n] = t
            i += 1

    def header(self, l):
        f = Func()
        f.mod = self
        f.blocks = None
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
        f.name = m.group(1).strip('"')
        tk = tokens(l[m.end():])
        p = Parser(self, tk)
        f.params, f.byval, f.vararg = [], {}, False
        n = 0
        while p.peek() != ')':
            if p.peek() == '...':
                p.next()
                f.vararg = True
                break
            t = p.type()
            bv = p.attrs()
            nm = None
            if p.peek() and p.peek().startswith('%'):
                nm = p.next()[1:].strip('"')
            else:
                nm = str(n)
            if bv:
                f.byval[len(f.params)] = bv
            f.params.append((t, nm))
            n += 1
            if p.peek() == ',':
                p.next()
        f.ret = None
        return f


ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'writeonly', 'readonly', 'readnone', 'signext',
         'zeroext', 'writable', 'dead_on_unwind', 'immarg', 'returned', 'inreg', 'nofree', 'nest',
         'inbounds', 'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
         'reassoc', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'tail', 'musttail', 'notail',
         'volatile', 'atomic', 'swiftself', 'swifterror', 'noundef', 'disjoint', 'nneg', 'inrange',
         'linkonce_odr', 'internal', 'external', 'private', 'weak', 'weak_odr', 'available_externally',
         'appending', 'common', 'constant', 'global', 'hidden', 'protected', 'default', 'comdat',
         'extern_weak', 'thread_local', 'fastcc', 'ccc', 'coldcc', 'samesign', 'allocptr'}
PAREN_ATTRS = {'dereferenceable', 'dereferenceable_or_null', 'align', 'sret', 'byval', 'byref',
               'elementtype', 'inalloca', 'preallocated', 'captures', 'memory', 'range', 'nofpclass',
               'initializes', 'thread_local'}


class Parser:
    def __init__(self, mod, tk):
        self.m = mod
        self.t = tk
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        y = self.next()
        if y != x:
            raise SymEscape('IR: expected %s, found %s in %s' % (x, y, ' '.join(self.t)[:200]))

    def attrs(self):
        """skips attributes; the type of byval, if any"""
        bv = None
        while self.peek() is not None:
            p = self.peek()
            if p in PAREN_ATTRS:
                self.next()
                if self.peek() == '(':
                    self.next()
                    if p == 'byval':
                        bv = self.type()
                        self.eat(')')
                    else:
                        d = 1
                        while d:
                            x = self.next()
                            d += x == '('
                            d -= x == ')'
                elif p == 'align':
                    self.next()
            elif p in ATTRS:
                self.next()
            else:
                break
        return bv

    def type(self):
        x = self.next()
        if x == 'ptr':
            if self.peek() == 'addrspace':
                self.i += 4
            t = ('p',)
        elif re.match(r'i\d+$', x):
            t = ('i', int(x[1:]))
        elif x in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
            t = ('f', {'double': 8, 'float': 4, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[x])
        elif x in ('void', 'label', 'metadata', 'token'):
            t = ('v',)
        elif x == '[':
            n = int(self.next())
            self.eat('x')
            e = self.type()
            self.eat(']')
            t = ('a', n, e)
        elif x == '{':
            t = ('s', self._fields('}'), False)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                t = ('s', self._fields('}'), True)
                self.eat('>')
            else:
                n = int(self.next())
                self.eat('x')
                e = self.type()
                self.eat('>')
                t = ('vec', n, e)
        elif x.startswith('%'):
            t = self.m.named(x[1:].strip('"'))
        elif x == 'opaque':
            t = ('s', [], False)
        else:
            raise SymEscape('IR: type %s in %s' % (x, ' '.join(self.t)[:200]))
        if self.peek() == '(':
            # function type
            d = 0
            while True:
                y = self.next()
                d += y == '('
                d -= y == ')'
                if d == 0:
                    break
            t = ('fn', t)
        return t

    def _fields(self, end):
        out = []
        while self.peek() != end:
            out.append(self.type())
            if self.peek() == ',':
                self.next()
        self.next()
        return out

    def value(self, t):
        """-> closure-free operand: ('r', name) register | ('c', constant)"""
        x = self.peek()
        if x.startswith('%'):
            self.next()
            return ('r', x[1:].strip('"'))
        return ('c', self.const(t))

    def const(self, t):
        x = self.next()
        if x.startswith('@'):
            return ('g', x[1:].strip('"'))
        if x in ('true', 'false'):
            return x == 'true'
        if x in ('null',):
            return NULLP
        if x in ('undef', 'poison'):
            return UNDEF
        if x == 'zeroinitializer':
            return zero(t)
        if x == 'none':
            return None
        if x in ('getelementptr',):
            self.attrs()
            while self.peek() != '(':
                self.next()
            self.eat('(')
            st = self.type()
            self.eat(',')
            self.attrs()
            self.type()
            base = self.const(('p',))
            off = 0
            idx = []
            while self.peek() == ',':
                self.next()
                self.attrs()
                if self.peek() == 'inrange':
                    self.next()
                it = self.type()
                idx.append(self.const(it))
            self.eat(')')
            return ('gep', base, gep_off(st, idx))
        if x in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc'):
            self.eat('(')
            ft = self.type()
            v = self.const(ft)
            self.eat('to')
            self.type()
            self.eat(')')
            return NULLP if x == 'inttoptr' and v == 0 else (
                P(None, v) if x == 'inttoptr' else v)
        if x == 'sub':
            raise SymEscape('IR: constant expression sub')
        if x.startswith('c"'):
            s = x[2:-1]
            out = []
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        out.append(92)
                        i += 2
                        continue
                    out.append(sgn(int(s[i + 1:i + 3], 16), 8))
                    i += 3
                else:
                    out.append(ord(s[i]))
                    i += 1
            return out
        if x in ('[', '{', '<'):
            packed = x == '<' and self.peek() == '{'
            if packed:
                self.next()
            out = []
            end = {'[': ']', '{': '}', '<': '}' if packed else '>'}[x]
            while self.peek() != end:
                et = self.type()
                out.append(self.const(et))
                if self.peek() == ',':
                    self.next()
            self.next()
            if packed:
                self.eat('>')
            return out
        if t[0] == 'f':
            if x.startswith('0x') or x.startswith('-0x'):
                if x[2] in 'KLMHR':
                    raise SymEscape('IR: long double constant')
                import struct
                return struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0]
            return float(x)
        if t[0] == 'i':
            return int(x)
        raise SymEscape('IR: constant %s of type %s' % (x, t))


def _named(self, n):
    v = self.types.get(n)
    if v is None:
        return ('s', [], False)
    if isinstance(v, str):
        t = ['s', [], False]
        self.types[n] = t
        p = Parser(self, tokens(v))
        r = p.type()
        t[:] = list(r)
        return t
    return v


Module.named = _named


def align(t):
    k = t[0]
    if k == 'i':
        return max(1, min(8 if t[1] <= 64 else 16, 1 << max(0, (t[1] - 1)).bit_length() - 3 if t[1] > 8 else 1))
    if k == 'f':
        return t[1]
    if k == 'p':
        return 8
    if k == 'a':
        return align(t[2])
    if k == 'vec':
        return size(t)
    if k == 's':
        return 1 if t[2] or not t[1] else max(align(e) for e in t[1])
    return 1


def size(t):
    k = t[0]
    if k == 'i':
        return {True: 1}.get(t[1] <= 8, 1 << ((t[1] - 1).bit_length() - 3))
    if k == 'f':
        return t[1]
    if k == 'p':
        return 8
    if k in ('a', 'vec'):
        return t[1] * size(t[2])
    if k == 's':
        o = 0
        for e in t[1]:
            a = 1 if t[2] else align(e)
            o = (o + a - 1) // a * a + size(e)
        a = align(t)
        return (o + a - 1) // a * a
    return 0


def field(t, i):
    o = 0
    for k, e in enumerate(t[1]):
        a = 1 if t[2] else align(e)
        o = (o + a - 1) // a * a
        if k == i:
            return o, e
        o += size(e)
    raise SymEscape('IR: field %d' % i)


def gep_off(t, idx):
    """byte offset"""
    off = idx[0] * size(t) if not (isinstance(idx[0], int) and idx[0] == 0) else 0
    for i in idx[1:]:
        if t[0] == 's':
            o, t = field(t, int(i))
            off = off + o
        elif t[0] in ('a', 'vec'):
            t = t[2]
            off = off + i * size(t)
        else:
            raise SymEscape('IR: index into %s' % t[0])
    return off


def zero(t):
    k = t[0]
    if k == 'i':
        return 0 if t[1] > 1 else False
    if k == 'f':
        return 0.0
    if k == 'p':
        return NULLP
    if k in ('a', 'vec'):
        return [zero(t[2]) for _ in range(t[1])]
    if k == 's':
        return [zero(e) for e in t[1]]
    return None


# ---------------------------------------------------------------------------
# compilation

def headers_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(LIB)):
        if f.lower().endswith('.h'):
            with open(os.path.join(LIB, f), 'rb') as fh:
                h.update(f.encode() + b'\0' + fh.read())
    return h.hexdigest()


_hh = None
PASSES = 'sroa,mem2reg,early-cse,simplifycfg'


def compile_ll(path, text=None):
    """IR text of one source file (cached by content)"""
    global _hh
    if _hh is None:
        _hh = headers_hash()
    if text is None:
        with open(path, 'rb') as f:
            data = f.read()
    else:
        data = text.encode()
    key = hashlib.sha256((_hh + PASSES + path).encode() + data).hexdigest()[:24]
    d = os.path.join(CACHE, 'ir')
    out = os.path.join(d, key + '.ll')
    if os.path.exists(out):
        with open(out) as f:
            return f.read()
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='verif-ir-')
    try:
        src = path
        if text is not None:
            src = os.path.join(tmp, 'glue.cpp')
            with open(src, 'w') as f:
                f.write(text)
        cc = 'clang' if path.endswith('.c') else 'clang++'
        a = os.path.join(tmp, 'a.ll')
        r = subprocess.run([cc, '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-g0',
                            '-ffp-contract=off', '-fno-builtin', '-fno-exceptions' if text else '-w',
                            '-w', '-fno-access-control'] +
                           CXXFLAGS + [src, '-o', a], stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise SymEscape('clang: ' + r.stderr[-2000:])
        b = os.path.join(tmp, 'b.ll')
        r = subprocess.run(['opt-18', '-S', '-passes=' + PASSES, a, '-o', b],
                           stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise SymEscape('opt: ' + r.stderr[-2000:])
        with open(b) as f:
            ll = f.read()
        fd, t2 = tempfile.mkstemp(dir=d)
        with os.fdopen(fd, 'w') as f:
            f.write(ll)
        os.rename(t2, out)
        return ll
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


class Program:
    def __init__(self):
        self.mods = []
        self.loaded = set()
        self.gblocks = None        # of the current path
        self.path = None
        self.depth = 0
        self.src_cache = None

    # -- modules
    def add_source(self, path, text=None):
        k = path if text is None else 'glue:' + hashlib.sha256(text.encode()).hexdigest()
        if k in self.loaded:
            return
        self.loaded.add(k)
        self.mods.append(Module(compile_ll(path, text)))

    def find(self, name):
        for m in self.mods:
            f = m.funcs.get(name)
            if f is not None:
                return f
            if name in m.aliases:
                x = re.findall(r'@("[^"]*"|[-\w.$]+)', m.aliases[name])[-1].strip('"')
                return self.find(x)
        return None

    def find_global(self, name):
        best = None
        for m in self.mods:
            t = m.globals.get(name)
            if t is not None:
                if not re.match(r'(\w+ )*external ', t):
                    return m, t
                best = m
        return None

    def sources(self):
        if self.src_cache is None:
            self.src_cache = {}
            for f in sorted(os.listdir(LIB)):
                if f.lower().endswith('.cpp'):
                    with open(os.path.join(LIB, f), encoding='latin-1') as fh:
                        self.src_cache[f] = fh.read()
        return self.src_cache

    def locate(self, sym):
        """compiles the lib_gnome file which defines the symbol"""
        d = subprocess.run(['c++filt', sym], stdout=subprocess.PIPE, text=True).stdout.strip()
        d = re.sub(r'^(virtual thunk to|non-virtual thunk to|vtable for|VTT for|typeinfo for|typeinfo name for) ', '', d)
        name = d.split('(')[0].split(' ')[-1]
        if '::' in name:
            cls, _, fn = name.rpartition('::')
            cls = cls.split('::')[-1]
            pats = [r'\b%s\s*::\s*%s\s*\(' % (re.escape(cls), re.escape(fn))]
            first = [cls + '.cpp']
        elif d != sym or re.match(r'^[A-Za-z_]\w*$', name):
            pats = [r'^[^\n;{}=#]*\b%s\s*\([^;]*?\)\s*(//[^\n]*\n\s*|/\*.*?\*/\s*)*\{' % re.escape(name),
                    r'\b%s\b' % re.escape(name)]
            first = [name + '.cpp']
        else:
            return False
        src = self.sources()
        order = [f for f in first if f in src] + [f for f in src if f not in first]
        for pat in pats:
            rx = re.compile(pat, re.M | re.S if 'virtual' in pat else re.M)
            for f in order:
                p = os.path.join(LIB, f)
                if p in self.loaded:
                    continue
                if (f in first and '::' not in name) or rx.search(src[f]):
                    try:
                        self.add_source(p)
                    except SymEscape:
                        continue
                    if self.find(sym) is not None or self.find_global(sym) is not None:
                        return True
        return False

    def get(self, name):
        f = self.find(name)
        if f is None:
            if self.locate(name):
                f = self.find(name)
        return f

    # -- globals
    def globs(self):
        c = core.CTX
        k = (id(c), getattr(getattr(c, 'stats', None), 'paths', 0))
        if self.gblocks is None or self.path != k:
            self.gblocks, self.path = {}, k
        return self.gblocks

    def gaddr(self, name):
        if self.find(name) is not None:
            return Fn(name)
        g = self.globs()
        b = g.get(name)
        if b is not None:
            return P(b, 0)
        r = self.find_global(name)
        if r is None:
            if any(name in m.decls for m in self.mods):
                return Fn(name)
            if self.locate(name):
                return self.gaddr(name)
            if name.startswith('_ZT'):
                b = g[name] = Block(None, name)
                return P(b, 0)
            raise SymEscape('IR: global %s is not defined' % name)
        m, t = r
        p = Parser(m, tokens(t))
        while p.peek() not in ('global', 'constant'):
            p.next()
            if p.peek() == '(':
                while p.next() != ')':
                    pass
        p.next()
        ty = p.type()
        b = g[name] = Block(size(ty), name)
        v = p.const(ty) if p.peek() is not None and p.peek() not in (',',) else UNDEF
        self.init(b, 0, ty, v)
        return P(b, 0)

    def init(self, b, off, t, v):
        if v is UNDEF or v is None:
            return
        if t[0] in ('a', 'vec'):
            es = size(t[2])
            if all(_isz(x) for x in v) and len(v) > 64:
                b.setzero(off, es * len(v))
                return
            for i, x in enumerate(v):
                self.init(b, off + i * es, t[2], x)
        elif t[0] == 's':
            for i, x in enumerate(v):
                o, e = field(t, i)
                self.init(b, off + o, e, x)
        else:
            self.put(P(b, off), t, self.cval(v))

    def cval(self, v):
        if isinstance(v, tuple):
            if v[0] == 'g':
                return self.gaddr(v[1])
            if v[0] == 'gep':
                b = self.cval(v[1])
                return P(b.b, b.o + v[2])
        if isinstance(v, list):
            return [self.cval(x) for x in v]
        return v

    # -- memory access
    def ptr(self, p):
        if p is UNDEF:
            raise SymEscape('use of an undefined pointer')
        if not isinstance(p, P):
            raise SymEscape('not a pointer: %r' % (p,))
        if p.b is None:
            raise MemoryError('null pointer dereferenced')
        if isinstance(p.o, Sym):
            return P(p.b, p.o.__index__())
        return p

    def load(self, p, t):
        if isinstance(p, P) and isinstance(p.o, Sym) and isinstance(p.b, ArrBlock) and t[0] in 'if':
            return self.load_sym(p, t)
        p = self.ptr(p)
        k = t[0]
        if k == 'i':
            v = p.b.load(p.o, size(t), 'i')
            if t[1] == 1 and v is not UNDEF:
                return v != 0
            return v
        if k == 'f':
            return p.b.load(p.o, size(t), 'f')
        if k == 'p':
            return p.b.load(p.o, 8, 'p')
        if k in ('a', 'vec'):
            es = size(t[2])
            return [self.load(P(p.b, p.o + i * es), t[2]) for i in range(t[1])]
        if k == 's':
            return [self.load(P(p.b, p.o + field(t, i)[0]), e) for i, e in enumerate(t[1])]
        raise SymEscape('IR: load of ' + k)

    def load_sym(self, p, t):
        """read at a symbolic offset: a case distinction over the items"""
        b = p.b
        cx = core.ctx()
        if not cx.branch(core.boolz((p.o >= 0) & (p.o + size(t) <= b.size))):
            raise MemoryError('access outside of an array of %d items' % len(b.buf))
        r = b.load(0, b.isz, t[0])
        for i in range(1, len(b.buf)):
            r = ite(p.o == i * b.isz, b.load(i * b.isz, b.isz, t[0]), r)
        return r

    def put(self, p, t, v):
        p = self.ptr(p)
        k = t[0]
        if k == 'i':
            if t[1] == 1 and isinstance(v, bool):
                v = int(v)
            elif isinstance(v, SymBool):
                v = v._num()
            elif isinstance(v, bool):
                v = int(v)
            p.b.store(p.o, size(t), 'i', v)
        elif k == 'f':
            p.b.store(p.o, size(t), 'f', v)
        elif k == 'p':
            p.b.store(p.o, 8, 'p', v)
        elif k in ('a', 'vec'):
            if v is UNDEF:
                return
            es = size(t[2])
            for i, x in enumerate(v):
                self.put(P(p.b, p.o + i * es), t[2], x)
        elif k == 's':
            if v is UNDEF:
                return
            for i, x in enumerate(v):
                o, e = field(t, i)
                self.put(P(p.b, p.o + o), e, x)
        else:
            raise SymEscape('IR: store of ' + k)

    def memcpy(self, d, s, n):
        n = int(n)
        if n == 0:
            return
        d, s = self.ptr(d), self.ptr(s)
        it = s.b.items(s.o, n)
        d.b.clear(d.o, n)
        for rel, sz, k, v in it:
            if k == 'z':
                if isinstance(d.b, Block):
                    d.b.zero.add(d.o + rel)
            else:
                d.b.store(d.o + rel, sz, k, v)
        if isinstance(d.b, ArrBlock):
            z = [rel for rel, sz, k, v in it if k == 'z']
            for rel in z:
                if (d.o + rel) % d.b.isz == 0:
                    d.b.setzero(d.o + rel, d.b.isz)

    def memset(self, d, c, n):
        n = int(n)
        d = self.ptr(d)
        if c == 0:
            d.b.setzero(d.o, n)
        else:
            d.b.clear(d.o, n)
            for i in range(n):
                d.b.store(d.o + i, 1, 'i', sgn(int(c), 8))

    # -- execution
    def call(self, name, args):
        f = self.find(name)
        if f is None:
            x = EXT.get(name)
            if x is not None:
                return x(self, *args)
            for pre, x in EXT_PREFIX:
                if name.startswith(pre):
                    return x(self, *args)
            f = self.get(name)
        elif name in EXT_FORCE:
            return EXT_FORCE[name](self, *args)
        if f is None:
            raise SymEscape('IR: function %s has no encoding' % name)
        return self.run(f, args)

    def run(self, f, args):
        cx = core.CTX
        if cx is not None and hasattr(cx, 'encoded'):
            cx.encoded.add(f.name)
        if f.blocks is None:
            prepare(f)
        self.depth += 1
        if self.depth > 60:
            raise SymEscape('IR: call depth')
        try:
            regs = {}
            for i, (t, n) in enumerate(f.params):
                v = args[i]
                if i in f.byval:
                    b = Block(size(f.byval[i]), 'byval')
                    self.memcpy(P(b, 0), v, size(f.byval[i]))
                    v = P(b, 0)
                regs[n] = v
            prev, cur = None, f.entry
            steps = 0
            while True:
                blk = f.blocks[cur]
                if isinstance(blk, list):
                    blk = f.blocks[cur] = parse_block(f, blk)
                steps += 1
                if steps > 20000:
                    raise SymEscape('IR: too many blocks executed in ' + f.name)
                phis, ins = blk
                if phis:
                    vals = [(n, self.val(regs, inc[prev])) for n, inc in phis]
                    for n, v in vals:
                        regs[n] = v
                nxt = None
                for op in ins:
                    try:
                        r = op[0](self, regs, op)
                    except (TypeError, AttributeError) as e:
                        raise SymEscape('IR: %s in %s: %s' % (e, f.name, str(op)[:300]))
                    if op[1] is not None:
                        regs[op[1]] = r
                    elif op[2]:
                        if op[2] == 'ret':
                            return r
                        nxt = r
                prev, cur = cur, nxt
        finally:
            self.depth -= 1

    def val(self, regs, v):
        if v[0] == 'r':
            return regs[v[1]]
        c = v[1]
        if isinstance(c, (tuple, list)):
            return self.cval(c)
        return c


def _isz(x):
    return isinstance(x, (int, float)) and x == 0 or x is NULLP or isinstance(x, list) and all(_isz(y) for y in x)


def prepare(f):
    blocks = {}
    n = len(f.params)
    unnamed = sum(1 for (t, nm) in f.params if nm.isdigit())
    cur = None
    lines = []
    first = None
    buf = None
    for l in f.body:
        if not l.strip():
            continue
        m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
        if m:
            cur = m.group(1).strip('"')
            if first is None:
                first = cur
            blocks[cur] = lines = []
            continue
        if cur is None:
            cur = first = str(unnamed)
            blocks[cur] = lines = []
        s = l.strip()
        if buf is not None:
            buf += ' ' + s
            if s == ']':
                lines.append(buf)
                buf = None
            continue
        if re.match(r'^(switch|indirectbr)\b', s) and not s.rstrip().endswith(']'):
            buf = s
            continue
        if lines and (s.startswith('to label') or s in ('cleanup',) or s.startswith('catch ') or s.startswith('filter ')):
            lines[-1] += ' ' + s
            continue
        lines.append(s)
    f.blocks = blocks
    f.entry = first


# ---- instructions: tuples (fn, dest, terminator kind, ...)

def num2(op):
    def g(self, regs, i):
        a, b = self.val(regs, i[3]), self.val(regs, i[4])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return op(a, b, i[5])
    return g


def vecop(op):
    def g(a, b, t):
        if isinstance(a, list):
            return [x if x is UNDEF else op(x, y, t[2]) for x, y in zip(a, b)]
        return op(a, b, t)
    return g


def wrapi(v, t):
    if isinstance(v, Sym):
        return v
    if isinstance(v, bool):
        return v
    return sgn(v, t[1])


def i_add(a, b, t): return wrapi(a + b, t)


def i_sub(a, b, t):
    if isinstance(a, P) or isinstance(b, P):
        if isinstance(a, P) and isinstance(b, P) and a.b is b.b:
            return a.o - b.o
        raise SymEscape('difference of unrelated pointers')
    return wrapi(a - b, t)


def i_mul(a, b, t): return wrapi(a * b, t)


def i_sdiv(a, b, t):
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(b, Sym):
            if bool(b == 0):
                raise ZeroDivisionError('integer division by zero')
            bp = bool(b > 0)
        else:
            bp = b > 0
        if not bp:
            a, b = -a, -b
        return ite(a >= 0, a // b, -((-a) // b))
    if b == 0:
        raise ZeroDivisionError('integer division by zero')
    q = abs(a) // abs(b)
    return wrapi(q if (a >= 0) == (b >= 0) else -q, t)


def i_srem(a, b, t):
    return a - i_sdiv(a, b, t) * b


def i_udiv(a, b, t):
    return i_udr(a, b, t)[0]


def i_urem(a, b, t):
    return i_udr(a, b, t)[1]


def i_udr(a, b, t):
    a, b = uns(a, t[1]), uns(b, t[1])
    if not isinstance(b, Sym) and b == 0:
        raise ZeroDivisionError('integer division by zero')
    return wrapi(a // b, t), wrapi(a % b, t)


def bits(op):
    def g(a, b, t):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)) or t == ('i', 1):
            if op == 'and':
                return symnp._land(a, b)
            if op == 'or':
                return symnp._lor(a, b)
            return a != b if not (isinstance(a, SymBool) or isinstance(b, SymBool)) else \
                core.mkbool(core.z3.Xor(core.boolz(a), core.boolz(b)))
        if isinstance(a, Sym) or isinstance(b, Sym):
            if op == 'and':
                m, x = (a, b) if not isinstance(a, Sym) else (b, a)
                if not isinstance(m, Sym):
                    if m == 0:
                        return 0
                    if m > 0 and (m & (m + 1)) == 0:
                        return uns(x, t[1]) % (m + 1)
                    if m == -1:
                        return x
            if op in ('or', 'xor'):
                m, x = (a, b) if not isinstance(a, Sym) else (b, a)
                if not isinstance(m, Sym):
                    if m == 0:
                        return x
                    if op == 'xor' and m == -1:
                        return -x - 1
            raise SymEscape('IR: %s of symbolic integers' % op)
        return wrapi({'and': a & b, 'or': a | b, 'xor': a ^ b}[op], t)
    return g


def i_shl(a, b, t):
    if isinstance(b, Sym):
        raise SymEscape('IR: symbolic shift')
    return wrapi(a * (1 << b), t)


def i_lshr(a, b, t):
    if isinstance(b, Sym):
        raise SymEscape('IR: symbolic shift')
    return wrapi(uns(a, t[1]) // (1 << b), t)


def i_ashr(a, b, t):
    if isinstance(b, Sym):
        raise SymEscape('IR: symbolic shift')
    return a // (1 << b)


def f_add(a, b, t): return a + b
def f_sub(a, b, t): return a - b
def f_mul(a, b, t): return a * b


def f_div(a, b, t):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a / b if not (not isinstance(b, Sym) and b == 0) else symnp.U2['divide'](a, b)
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def f_rem(a, b, t):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return symnp.U2['fmod'](a, b)
    return math.fmod(a, b)


BIN = {'add': i_add, 'sub': i_sub, 'mul': i_mul, 'sdiv': i_sdiv, 'srem': i_srem, 'udiv': i_udiv,
       'urem': i_urem, 'and': bits('and'), 'or': bits('or'), 'xor': bits('xor'), 'shl': i_shl,
       'lshr': i_lshr, 'ashr': i_ashr, 'fadd': f_add, 'fsub': f_sub, 'fmul': f_mul,
       'fdiv': f_div, 'frem': f_rem}


def x_fneg(self, regs, i):
    v = self.val(regs, i[3])
    return v if v is UNDEF else -v


def x_icmp(self, regs, i):
    a, b = self.val(regs, i[3]), self.val(regs, i[4])
    pred, t = i[5], i[6]
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, (P, Fn)) or isinstance(b, (P, Fn)):
        if isinstance(a, int):
            a = P(None, a)
        if isinstance(b, int):
            b = P(None, b)
        if pred in ('eq', 'ne'):
            if isinstance(a, P) and isinstance(b, P) and a.b is b.b and a.b is not None:
                r = a.o == b.o
            else:
                r = a == b
            return r if pred == 'eq' else symnp._lnot(r)
        if isinstance(a, P) and isinstance(b, P) and a.b is b.b:
            a, b = a.o, b.o
            pred = {'u': 's'}.get(pred[0], pred[0]) + pred[1:]
        else:
            raise SymEscape('IR: comparison of unrelated pointers')
    if t[0] == 'i' and t[1] == 1:
        a = a._num() if isinstance(a, SymBool) else int(a)
        b = b._num() if isinstance(b, SymBool) else int(b)
    elif pred[0] == 'u':
        a, b = uns(a, t[1]), uns(b, t[1])
    return {'eq': lambda: a == b, 'ne': lambda: a != b,
            'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b,
            'ge': lambda: a >= b}[pred if pred in ('eq', 'ne') else pred[1:]]()


def x_fcmp(self, regs, i):
    a, b = self.val(regs, i[3]), self.val(regs, i[4])
    pred = i[5]
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if pred in ('true', 'false'):
        return pred == 'true'
    nan = isinstance(a, float) and a != a or isinstance(b, float) and b != b
    if pred == 'ord':
        return not nan
    if pred == 'uno':
        return nan
    if nan:
        return pred[0] == 'u'
    return {'eq': lambda: a == b, 'ne': lambda: a != b,
            'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b,
            'ge': lambda: a >= b}[pred[1:]]()


def x_select(self, regs, i):
    c, a, b = (self.val(regs, x) for x in i[3:6])
    if c is UNDEF:
        raise SymEscape('select on an undefined value')
    if not isinstance(c, SymBool):
        return a if c else b
    if a is UNDEF:
        return b if not bool(c) else a
    if b is UNDEF:
        return a if bool(c) else b
    if isinstance(a, (P, Fn, list)) or isinstance(b, (P, Fn, list)):
        return a if bool(c) else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return core.mkbool(core.z3.If(c.z, core.boolz(a), core.boolz(b)))
    if core.is_special(a) or core.is_special(b):
        return a if bool(c) else b
    return ite(c, a, b)


def x_load(self, regs, i): return self.load(self.val(regs, i[3]), i[4])


def x_store(self, regs, i):
    self.put(self.val(regs, i[4]), i[5], self.val(regs, i[3]))


def x_alloca(self, regs, i):
    n = self.val(regs, i[4]) if i[4] is not None else 1
    return P(Block(size(i[3]) * int(n), '%' + str(i[1])), 0)


def x_gep(self, regs, i):
    p = self.val(regs, i[3])
    idx = [self.val(regs, x) for x in i[5]]
    if p is UNDEF:
        return UNDEF
    off = gep_off(i[4], idx)
    if isinstance(p, Fn):
        raise SymEscape('IR: arithmetic on a function pointer')
    o = p.o + off
    if isinstance(o, Sym):
        c = core.const_of(core.z3.simplify(o.z))
        if c is not None:
            o = int(c)
    return P(p.b, o)


def x_cast(self, regs, i):
    v = self.val(regs, i[3])
    op, ft, tt = i[4], i[5], i[6]
    if v is UNDEF:
        return UNDEF
    if op in ('zext', 'sext'):
        if ft[1] == 1:
            if isinstance(v, SymBool):
                v = v._num()
            else:
                v = int(bool(v))
            return v if op == 'zext' else -v
        return uns(v, ft[1]) if op == 'zext' else v
    if op == 'trunc':
        if isinstance(v, P):
            raise SymEscape('IR: truncated pointer')
        if tt[1] == 1:
            if isinstance(v, Sym):
                return (v % 2) != 0
            return bool(v & 1)
        if isinstance(v, Sym):
            # in range? then unchanged; otherwise outside of the encoding
            lim = 1 << (tt[1] - 1)
            if not core.ctx().branch(core.boolz((v >= -lim) & (v < lim))):
                return Sym(((v + lim) % (2 * lim) - lim).z)
            return v
        return sgn(v, tt[1])
    if op in ('fptrunc', 'fpext'):
        return v
    if op == 'sitofp':
        return Sym(core.to_real(v.z)) if isinstance(v, Sym) else float(v)
    if op == 'uitofp':
        if isinstance(v, SymBool):
            v = v._num()
        v = uns(v, ft[1])
        return Sym(core.to_real(v.z)) if isinstance(v, Sym) else float(v)
    if op in ('fptosi', 'fptoui'):
        if isinstance(v, Sym):
            return Sym(core.trunc_z(v.z))
        if core.is_special(v):
            return -(1 << (tt[1] - 1))
        return sgn(int(v), tt[1])
    if op == 'bitcast':
        if ft[0] == tt[0]:
            return v
        raise SymEscape('IR: bitcast %s to %s' % (ft[0], tt[0]))
    if op == 'ptrtoint':
        if isinstance(v, P) and v.b is None:
            return v.o
        return v
    if op == 'inttoptr':
        if isinstance(v, P):
            return v
        return NULLP if v == 0 else P(None, v)
    if op in ('freeze', 'addrspacecast'):
        return v
    raise SymEscape('IR: ' + op)


def x_call(self, regs, i):
    f = i[3]
    args = [self.val(regs, a) for a in i[4]]
    if f[0] == 'r':
        fp = regs[f[1]]
        if not isinstance(fp, Fn):
            raise SymEscape('IR: call through %r' % (fp,))
        name = fp.name
    else:
        c = self.cval(f[1]) if not (isinstance(f[1], tuple) and f[1][0] == 'g') else Fn(f[1][1])
        name = c.name
    # byval arguments are copied by the callee
    return self.call(name, args)


def x_ret(self, regs, i):
    return self.val(regs, i[3]) if i[3] is not None else None


def x_br(self, regs, i):
    if i[3] is None:
        return i[4]
    c = self.val(regs, i[3])
    if c is UNDEF:
        raise SymEscape('branch on an undefined value')
    return i[4] if bool(c) else i[5]


def x_switch(self, regs, i):
    v = self.val(regs, i[3])
    if v is UNDEF:
        raise SymEscape('switch on an undefined value')
    for c, l in i[5]:
        if bool(v == c):
            return l
    return i[4]


def x_unreachable(self, regs, i):
    raise SymEscape('IR: unreachable reached')


def x_extractvalue(self, regs, i):
    v = self.val(regs, i[3])
    for k in i[4]:
        v = v[k]
    return v


def x_insertvalue(self, regs, i):
    v, e = self.val(regs, i[3]), self.val(regs, i[4])

    def ins(a, t, path):
        if not path:
            return e
        n = len(t[1]) if t[0] == 's' else t[1]
        a = [UNDEF] * n if a is UNDEF else list(a)
        et = t[1][path[0]] if t[0] == 's' else t[2]
        a[path[0]] = ins(a[path[0]], et, path[1:])
        return a
    return ins(v, i[6], i[5])


def x_extractelement(self, regs, i):
    v, k = self.val(regs, i[3]), self.val(regs, i[4])
    return v[int(k)]


def x_insertelement(self, regs, i):
    v, e, k = (self.val(regs, x) for x in i[3:6])
    v = [UNDEF] * i[6] if v is UNDEF else list(v)
    v[int(k)] = e
    return v


def x_landingpad(self, regs, i):
    raise SymEscape('IR: C++ exception')


CASTS = {'zext', 'sext', 'trunc', 'fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
         'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'}


def parse_block(f, lines):
    phis, ins = [], []
    for l in lines:
        dest = None
        m = re.match(r'^%("[^"]*"|[-\w.$]+) = ', l)
        if m:
            dest = m.group(1).strip('"')
            l = l[m.end():]
        p = Parser(f.mod, tokens(re.sub(r', ![\w.]+ ![\w.]+.*$', '', l)))
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'phi':
            p.attrs()
            t = p.type()
            inc = {}
            while p.peek() == '[' or p.peek() == ',':
                if p.peek() == ',':
                    p.next()
                    continue
                p.next()
                v = p.value(t)
                p.eat(',')
                b = p.next()[1:].strip('"')
                p.eat(']')
                inc[b] = v
            phis.append((dest, inc))
        elif op in BIN:
            p.attrs()
            t = p.type()
            a = p.value(t)
            p.eat(',')
            b = p.value(t)
            ins.append((num2(vecop(BIN[op])), dest, None, a, b, t))
        elif op == 'fneg':
            p.attrs()
            t = p.type()
            ins.append((x_fneg, dest, None, p.value(t)))
        elif op in ('icmp', 'fcmp'):
            p.attrs()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.eat(',')
            b = p.value(t)
            ins.append((x_icmp if op == 'icmp' else x_fcmp, dest, None, a, b, pred, t))
        elif op == 'select':
            p.attrs()
            vs = []
            for k in range(3):
                t = p.type()
                vs.append(p.value(t))
                if k < 2:
                    p.eat(',')
            ins.append((x_select, dest, None) + tuple(vs))
        elif op == 'load':
            p.attrs()
            t = p.type()
            p.eat(',')
            p.type()
            ins.append((x_load, dest, None, p.value(('p',)), t))
        elif op == 'store':
            p.attrs()
            t = p.type()
            v = p.value(t)
            p.eat(',')
            p.type()
            ins.append((x_store, None, None, v, p.value(('p',)), t))
        elif op == 'alloca':
            p.attrs()
            t = p.type()
            n = None
            if p.peek() == ',' and p.peek(1) not in ('align', 'addrspace'):
                p.next()
                it = p.type()
                n = p.value(it)
            ins.append((x_alloca, dest, None, t, n))
        elif op == 'getelementptr':
            p.attrs()
            t = p.type()
            p.eat(',')
            p.type()
            b = p.value(('p',))
            idx = []
            while p.peek() == ',':
                p.next()
                it = p.type()
                idx.append(p.value(it))
            ins.append((x_gep, dest, None, b, t, idx))
        elif op in CASTS:
            p.attrs()
            ft = p.type()
            v = p.value(ft)
            p.eat('to')
            tt = p.type()
            ins.append((x_cast, dest, None, v, op, ft, tt))
        elif op == 'freeze':
            ft = p.type()
            ins.append((x_cast, dest, None, p.value(ft), 'freeze', ft, ft))
        elif op in ('call', 'invoke'):
            p.attrs()
            p.type()
            fn = p.value(('p',)) if p.peek() not in ('asm',) else None
            if fn is None:
                raise SymEscape('IR: inline assembly')
            p.eat('(')
            args = []
            while p.peek() != ')':
                t = p.type()
                p.attrs()
                if t == ('v',):
                    while p.peek() not in (',', ')'):
                        p.next()
                else:
                    args.append(p.value(t))
                if p.peek() == ',':
                    p.next()
            p.next()
            ins.append((x_call, dest, None, fn, args))
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next()
                p.eat('label')
                ins.append((x_br, None, 'br', None, p.next()[1:].strip('"')))
        elif op == 'ret':
            t = p.type()
            ins.append((x_ret, None, 'ret', None if t == ('v',) else p.value(t)))
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                ins.append((x_br, None, 'br', None, p.next()[1:].strip('"')))
            else:
                p.type()
                c = p.value(('i', 1))
                p.eat(',')
                p.eat('label')
                a = p.next()[1:].strip('"')
                p.eat(',')
                p.eat('label')
                ins.append((x_br, None, 'br', c, a, p.next()[1:].strip('"')))
        elif op == 'switch':
            t = p.type()
            v = p.value(t)
            p.eat(',')
            p.eat('label')
            d = p.next()[1:].strip('"')
            p.eat('[')
            cs = []
            while p.peek() != ']':
                ct = p.type()
                c = p.const(ct)
                p.eat(',')
                p.eat('label')
                cs.append((c, p.next()[1:].strip('"')))
            ins.append((x_switch, None, 'br', v, d, cs))
        elif op == 'unreachable':
            ins.append((x_unreachable, None, 'br'))
        elif op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            ix = []
            while p.peek() == ',':
                p.next()
                ix.append(int(p.next()))
            ins.append((x_extractvalue, dest, None, v, ix))
        elif op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.eat(',')
            et = p.type()
            e = p.value(et)
            ix = []
            while p.peek() == ',':
                p.next()
                ix.append(int(p.next()))
            ins.append((x_insertvalue, dest, None, v, e, ix, t))
        elif op == 'extractelement':
            t = p.type()
            v = p.value(t)
            p.eat(',')
            it = p.type()
            ins.append((x_extractelement, dest, None, v, p.value(it)))
        elif op == 'insertelement':
            t = p.type()
            v = p.value(t)
            p.eat(',')
            et = p.type()
            e = p.value(et)
            p.eat(',')
            it = p.type()
            ins.append((x_insertelement, dest, None, v, e, p.value(it), t[1]))
        elif op in ('landingpad', 'resume', 'catchpad', 'cleanuppad'):
            ins.append((x_landingpad, dest, None))
        else:
            raise SymEscape('IR: instruction ' + op)
    return phis, ins


# ---------------------------------------------------------------------------
# library functions

def _math1(name):
    f = getattr(shims.math_shim, name)

    def g(self, x):
        if x is UNDEF:
            raise SymEscape('undefined argument of ' + name)
        if isinstance(x, Sym):
            if name in ('sqrt', 'log', 'log10') and bool(x < 0):
                return math.nan
            if name in ('log', 'log10') and bool(x == 0):
                return -math.inf
            r = f(x)
            return Sym(core.to_real(r.z)) if isinstance(r, Sym) and r.is_int else r
        try:
            return float(f(x))
        except ValueError:
            return -math.inf if name.startswith('log') and x == 0 else math.nan
        except OverflowError:
            return math.inf
    return g


def _math2(name):
    f = getattr(shims.math_shim, name)

    def g(self, a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return f(a, b)
        try:
            return float(f(a, b))
        except (ValueError, OverflowError):
            return math.nan
    return g


def e_alloc(self, n):
    if isinstance(n, Sym):
        n = n.__index__()
    return P(Block(int(n), 'heap'), 0)


def e_calloc(self, n, m):
    n = int(n) * int(m)
    return P(Block(n, 'heap', zero=True), 0)


def e_realloc(self, p, n):
    q = e_alloc(self, n)
    if isinstance(p, P) and p.b is not None:
        self.memcpy(q, p, min(int(n), p.b.size))
    return q


def e_rand(self):
    return core.ctx().c_rand(RAND_MAX)


def e_none(self, *a):
    return None


def e_zero(self, *a):
    return 0


def e_fabs(self, x):
    return abs(x)


def e_abs(self, x, *a):
    return abs(x)


def e_memcpy(self, d, s, n, *a):
    self.memcpy(d, s, n)
    return d


def e_memset(self, d, c, n, *a):
    self.memset(d, c, n)
    return d


def _mx(a, b):
    return ite(a > b, a, b) if isinstance(a, Sym) or isinstance(b, Sym) else max(a, b)


def _mn(a, b):
    return ite(a < b, a, b) if isinstance(a, Sym) or isinstance(b, Sym) else min(a, b)


def e_string_ctor(self, this, *a):
    # std::string: only its emptiness is modelled
    self.ptr(this).b.store(this.o + 8, 8, 'i', 0)
    return None


EXT = {n: _math1(n) for n in ('sqrt', 'exp', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'log',
                              'log10', 'tanh', 'floor', 'ceil', 'erf')}
EXT.update({n + 'f': _math1(n) for n in ('sqrt', 'exp', 'sin', 'cos', 'floor', 'ceil')})
EXT.update({'pow': _math2('pow'), 'atan2': _math2('atan2'), 'fmod': _math2('fmod'),
            'hypot': _math2('hypot'), 'fabs': e_fabs, 'fabsf': e_fabs, 'abs': e_abs, 'labs': e_abs,
            'malloc': e_alloc, 'calloc': e_calloc, 'realloc': e_realloc, 'free': e_none,
            '_Znwm': e_alloc, '_Znam': e_alloc, '_ZdlPv': e_none, '_ZdaPv': e_none,
            '_ZdlPvm': e_none, '_ZdaPvm': e_none,
            'rand': e_rand, 'srand': e_none, 'memcpy': e_memcpy, 'memmove': e_memcpy,
            'memset': e_memset, 'printf': e_zero, 'puts': e_zero, 'sprintf': e_zero,
            '__cxa_atexit': e_zero, '_ZSt3absd': e_fabs, '_ZSt3absf': e_fabs,
            '_ZSt3absl': e_abs, '__cxa_pure_virtual': None})
EXT = {k: v for k, v in EXT.items() if v is not None}


def e_newptr(self, n):
    """memory whose size is kept in front of it"""
    n = int(n)
    b = Block(n + 8, 'handle', zero=True)
    b.store(0, 8, 'i', n)
    return P(b, 8)


def e_newhandle(self, n):
    b = Block(8, 'master pointer')
    b.store(0, 8, 'p', e_newptr(self, n))
    return P(b, 0)


def e_dispose(self, h):
    h = self.ptr(h)
    h.b.store(h.o, 8, 'p', NULLP)


EXT_FORCE = {'_Z7_NewPtrl': e_newptr, '_Z12_NewPtrClearl': e_newptr, '_Z10_NewHandlel': e_newhandle,
             '_Z15_NewHandleClearl': e_newhandle, '_Z20_DisposeHandleReallyPPc': e_dispose,
             '_Z11_DisposePtrPc': e_none}
EXT.update(EXT_FORCE)
EXT_PREFIX = [
    ('llvm.memcpy', e_memcpy), ('llvm.memmove', e_memcpy), ('llvm.memset', e_memset),
    ('llvm.fabs', e_fabs), ('llvm.fmuladd', lambda s, a, b, c: a * b + c),
    ('llvm.fma', lambda s, a, b, c: a * b + c),
    ('llvm.lifetime', e_none), ('llvm.assume', e_none), ('llvm.stack', lambda s, *a: NULLP),
    ('llvm.dbg', e_none), ('llvm.experimental', e_none), ('llvm.va_', e_none),
    ('llvm.sqrt', EXT['sqrt']), ('llvm.exp', EXT['exp']), ('llvm.pow', EXT['pow']),
    ('llvm.floor', EXT['floor']), ('llvm.ceil', EXT['ceil']), ('llvm.sin', EXT['sin']),
    ('llvm.cos', EXT['cos']), ('llvm.log', EXT['log']),
    ('llvm.smax', lambda s, a, b: _mx(a, b)), ('llvm.smin', lambda s, a, b: _mn(a, b)),
    ('llvm.abs', lambda s, a, *r: abs(a)), ('llvm.trap', x_unreachable),
    ('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC', e_string_ctor),
    ('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED', e_none),
    ('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEaS', e_none),
    ('_ZNSaIcE', e_none), ('_ZNSt8ios_base', e_none), ('_ZSt', e_none)]

PROG = Program()


# ---------------------------------------------------------------------------
# the Cython side

def to_ir(x):
    from . import cyenc
    if isinstance(x, cyenc.Ptr):
        return P(ArrBlock(x.buf, x.size, x.kind), x.off * x.size)
    if isinstance(x, cyenc.StructPtr):
        return P(StructBlock(x.a), x.off)
    if isinstance(x, cyenc.Cell):
        return P(ArrBlock(CellBuf(x), x.size, 'd'), 0)
    if isinstance(x, cyenc.Null):
        return NULLP
    if isinstance(x, (CObj, CPtr)):
        return x._p
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    return x


class CellBuf:
    __slots__ = ('c',)

    def __init__(self, c): self.c = c
    def __len__(self): return 1
    def __getitem__(self, i): return self.c.v
    def __setitem__(self, i, v): self.c.v = v


class CDecl:
    """C types of the .pxd files as C++ text"""
    def __init__(self):
        self.classes = {}      # name -> (header, bases, {member: type}, {method: [(ret, args)]})
        self.funcs = {}        # name -> (header, ret, args)
        self.seen = set()

    def load(self, fn):
        if fn in self.seen or not os.path.exists(fn):
            return
        self.seen.add(fn)
        from .cyenc import parse_pyx
        tree = parse_pyx(fn, True)
        d = os.path.dirname(fn)
        for s in tree.body.stats if hasattr(tree.body, 'stats') else [tree.body]:
            t = type(s).__name__
            if t == 'FromCImportStatNode':
                self.load(os.path.join(d, s.module_name.lstrip('.').split('.')[-1] + '.pxd'))
            elif t == 'CDefExternNode':
                self.extern(s)

    def extern(self, n):
        hdr = n.include_file
        st = n.body.stats if hasattr(n.body, 'stats') else [n.body]
        for s in st:
            t = type(s).__name__
            if t == 'CppClassNode':
                mem, met = {}, {}
                for a in (s.attributes or []):
                    if type(a).__name__ != 'CVarDefNode':
                        continue
                    for de in a.declarators:
                        self.decl(a.base_type, de, mem, met)
                bases = [getattr(b, 'name', None) for b in (s.base_classes or [])]
                self.classes[s.name] = (hdr, bases, mem, met)
            elif t == 'CVarDefNode':
                for de in s.declarators:
                    mem, met = {}, {}
                    self.decl(s.base_type, de, mem, met)
                    for k, v in met.items():
                        self.funcs[k] = (hdr,) + v[0]
            elif t == 'CStructOrUnionDefNode' or (t == 'CTypeDefNode'):
                node = s if t == 'CStructOrUnionDefNode' else None
                if node is not None and node.attributes:
                    mem = {}
                    for a in node.attributes:
                        for de in a.declarators:
                            self.decl(a.base_type, de, mem, {})
                    self.classes[node.name] = (hdr, [], mem, {})

    def base(self, b):
        while not hasattr(b, 'name') and hasattr(b, 'base_type'):     # const
            b = b.base_type
        n = b.name
        if getattr(b, 'is_basic_c_type', False):
            s = {1: '', 0: 'unsigned ', 2: 'signed '}[b.signed]
            if n == 'int':
                return s + {0: 'int', 1: 'long', 2: 'long long', -1: 'short'}[b.longness]
            if n == 'char':
                return s + 'char'
            if n == 'bint':
                return 'int'
        return n

    def full(self, base, de):
        t = self.base(base)
        name = None
        ref = False
        while de is not None:
            k = type(de).__name__
            if k == 'CNameDeclaratorNode':
                name = de.name
                break
            if k == 'CPtrDeclaratorNode':
                t += '*'
            elif k == 'CReferenceDeclaratorNode':
                ref = True
            elif k == 'CArrayDeclaratorNode':
                t += '*'
            else:
                raise SymEscape('pxd: ' + k)
            de = de.base
        return t, name, ref

    def decl(self, base, de, mem, met):
        k = type(de).__name__
        ptr = ''
        d = de
        while type(d).__name__ == 'CPtrDeclaratorNode':
            ptr += '*'
            d = d.base
        if type(d).__name__ == 'CFuncDeclaratorNode':
            args = []
            for a in d.args:
                t, nm, ref = self.full(a.base_type, a.declarator)
                args.append(t)
            if self.base(base) is None:      # a constructor
                return
            met.setdefault(d.base.name, []).append((self.base(base) + ptr, args))
        else:
            t, nm, ref = self.full(base, de)
            mem[nm] = t

    def member(self, cls, name):
        """-> ('m', class, type) | ('f', class, [(ret, args)]) | None"""
        c = self.classes.get(cls)
        if c is None:
            return None
        if name in c[2]:
            return ('m', cls, c[2][name])
        if name in c[3]:
            return ('f', cls, c[3][name])
        for b in c[1]:
            r = self.member(b, name)
            if r is not None:
                return r
        return None


DECL = CDecl()
SCAL_I = {'int', 'long', 'short', 'char', 'bool', 'unsigned char', 'unsigned long', 'unsigned int',
          'unsigned short', 'signed char', 'long long', 'Boolean', 'OSErr', 'Seconds', 'LETYPE', 'int32_t',
          'size_t', 'LEType'}
SCAL_F = {'double', 'float'}
KSIZE = {'int': 4, 'long': 8, 'short': 2, 'char': 1, 'bool': 1, 'unsigned char': 1, 'unsigned long': 8,
         'unsigned int': 4, 'unsigned short': 2, 'signed char': 1, 'long long': 8, 'Boolean': 1, 'OSErr': 2,
         'Seconds': 8, 'LETYPE': 8, 'int32_t': 4, 'size_t': 8, 'LEType': 4}


def glue(cls, what, body):
    """compiles one accessor; -> its name"""
    hdr = DECL.classes[cls][0]
    h = hashlib.sha256(body.encode()).hexdigest()[:10]
    name = 'vp_%s_%s_%s' % (cls, what, h)
    if PROG.find(name) is None:
        PROG.add_source('glue.cpp', '#include "Basics.h"\n#include "TypeDefs.h"\n#include "GEOMETRY.H"\n#include "%s"\n#include <new>\n'
                        'extern "C" %s\n' % (hdr, body.replace('@NAME@', name)))
    return name


class CObj:
    """a C++ object or struct in encoded memory"""
    def __init__(self, p, cls):
        object.__setattr__(self, '_p', p)
        object.__setattr__(self, '_c', cls)

    def __bool__(self):
        return self._p.b is not None

    def _addr(self, name):
        k = DECL.member(self._c, name)
        if k is None:
            raise AttributeError('%s.%s is not declared' % (self._c, name))
        if k[0] != 'm':
            return k, None
        n = glue(self._c, 'a_' + name, 'void *@NAME@(%s *o) { return (void *)&o->%s; }' % (self._c, name))
        return k, PROG.call(n, [self._p])

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        k = DECL.member(self._c, name)
        if k is not None and k[0] == 'm' and isinstance(k[2], str) and k[2] in SCAL_I | SCAL_F:
            # through the compiler: the type in the header may differ from the declared one
            n = glue(self._c, 'g_' + name, '%s @NAME@(%s *o) { return o->%s; }' % (k[2], self._c, name))
            return from_ir(PROG.call(n, [self._p]), k[2])
        k, a = self._addr(name)
        if k[0] == 'f':
            return lambda *args: self._call(name, k, args)
        return read(a, k[2])

    def __setattr__(self, name, v):
        k = DECL.member(self._c, name)
        if k is not None and k[0] == 'm' and isinstance(k[2], str) and k[2] in SCAL_I | SCAL_F:
            n = glue(self._c, 's_' + name, 'void @NAME@(%s *o, %s v) { o->%s = v; }' % (self._c, k[2], name))
            PROG.call(n, [self._p, coerce_arg(k[2], to_ir(v))])
            return
        k, a = self._addr(name)
        write(a, k[2], v)

    def __getitem__(self, i):
        if i != 0:
            raise SymEscape('index into a C struct pointer')
        return self

    def _call(self, name, k, args):
        sigs = [s for s in k[2] if len(s[1]) == len(args)]
        if not sigs:
            raise SymEscape('%s.%s with %d arguments' % (self._c, name, len(args)))
        ret, at = sigs[0]
        ps = ''.join(', %s a%d' % (t, i) for i, t in enumerate(at))
        cl = 'o->%s(%s)' % (name, ', '.join('a%d' % i for i in range(len(at))))
        tn = re.sub(r'\W', '', ''.join(at))
        args = [coerce_arg(t, to_ir(a)) for t, a in zip(at, args)]
        if ret in DECL.classes:
            n = glue(self._c, 'c_' + name, 'void @NAME@(%s *o%s, %s *r) { *r = %s; }' % (self._c, ps, ret, cl))
            o = new_struct(ret)
            PROG.call(n, [self._p] + args + [o._p])
            return o
        n = glue(self._c, 'c_' + name, '%s @NAME@(%s *o%s) { %s%s; }' % (
            ret, self._c, ps, '' if ret == 'void' else 'return ', cl))
        r = PROG.call(n, [self._p] + args)
        return from_ir(r, ret)


def coerce_arg(t, a):
    if t in SCAL_F:
        if isinstance(a, Sym):
            return Sym(core.to_real(a.z))
        return float(a)
    if t in ('bool',):
        return a if isinstance(a, (bool, SymBool)) else bool(a)
    if t in SCAL_I:
        if isinstance(a, SymBool):
            return a._num()
        if isinstance(a, Sym):
            return a if a.is_int else Sym(core.trunc_z(a.z))
        if isinstance(a, float) and a != int(a):
            raise TypeError('a float where a C integer is expected')
        return sgn(int(a), 8 * KSIZE[t])
    if t in DECL.classes and isinstance(a, P):
        return a
    return a


def from_ir(r, t):
    if t.endswith('*') or isinstance(r, (P, Fn)):
        return CPtr(r, t)
    if t == 'bool':
        return r
    if t in ('unsigned char', 'Boolean', 'unsigned long', 'LETYPE', 'unsigned int'):
        return uns(r, 8 * KSIZE[t])
    return r


class CPtr:
    """a pointer the Cython code passes around"""
    def __init__(self, p, t):
        self._p, self._t = p, t

    def __bool__(self):
        return isinstance(self._p, Fn) or self._p.b is not None

    def __getitem__(self, i):
        # handles: T** -> T*
        q = PROG.load(P(self._p.b, self._p.o + 8 * i), ('p',))
        return CPtr(q, self._t[:-1])

    def __eq__(self, o):
        from . import cyenc
        if isinstance(o, cyenc.Null) or o is None:
            return not self
        return isinstance(o, CPtr) and o._p == self._p
    __hash__ = object.__hash__

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        return getattr(CObj(self._p, self._t.rstrip('*')), n)


def read(a, t):
    if t in SCAL_F:
        v = PROG.load(a, ('f', 8 if t == 'double' else 4))
        if v is UNDEF:
            raise SymEscape('read of an uninitialised C++ member')
        return v
    if t in SCAL_I:
        v = PROG.load(a, ('i', 8 * KSIZE[t]))
        if v is UNDEF:
            raise SymEscape('read of an uninitialised C++ member')
        return (v != 0) if t == 'bool' else from_ir(v, t)
    if t in DECL.classes:
        return CObj(a, t)
    if t == 'string':
        n = PROG.load(P(a.b, a.o + 8), ('i', 64))
        if n == 0:
            return b''
        raise SymEscape('content of a std::string')
    return CPtr(PROG.load(a, ('p',)), t)


def write(a, t, v):
    v = to_ir(v)
    if t in SCAL_F:
        PROG.put(a, ('f', 8 if t == 'double' else 4), coerce_arg('double', v))
    elif t in SCAL_I:
        PROG.put(a, ('i', 8 * KSIZE[t]), coerce_arg(t, v))
    elif t in DECL.classes and isinstance(v, P):
        n = glue(t, 'copy', 'void @NAME@(%s *d, %s *s) { *d = *s; }' % (t, t))
        PROG.call(n, [a, v])
    else:
        PROG.put(a, ('p',), v._p if isinstance(v, CPtr) else v)


def new(cls, *args):
    if args:
        raise SymEscape('constructor of %s with arguments' % cls)
    n = glue(cls, 'new', '%s *@NAME@() { return new %s(); }' % (cls, cls))
    return CObj(PROG.call(n, []), cls)


def sizeof(cls):
    n = glue(cls, 'size', 'long @NAME@() { return sizeof(%s); }' % cls)
    return PROG.call(n, [])


def new_struct(cls):
    return CObj(P(Block(sizeof(cls), cls), 0), cls)


def cfunc(name):
    """Python callable for a C function declared in a .pxd or in the .pyx"""
    def g(*a):
        d = DECL.funcs.get(name)
        at = d[2] if d else [None] * len(a)
        args = []
        for x, t in zip(a, at):
            v = to_ir(x)
            args.append(coerce_arg(t, v) if t is not None else v)
        r = PROG.call(sym(name), args)
        return from_ir(r, d[1]) if d else r
    return g


_sym = {}


def sym(name):
    """link name of a function"""
    if name in _sym:
        return _sym[name]
    for m in PROG.mods:
        if name in m.funcs:
            _sym[name] = name
            return name
    d = DECL.funcs.get(name)
    if d and d[0]:
        ps = ', '.join('%s a%d' % (t, i) for i, t in enumerate(d[2]))
        body = '%s vp_f_%s(%s) { %s%s(%s); }' % (
            d[1], name, ps, '' if d[1] == 'void' else 'return ', name,
            ', '.join('a%d' % i for i in range(len(d[2]))))
        PROG.add_source('glue.cpp', '#include "Basics.h"\n#include "TypeDefs.h"\n#include "GEOMETRY.H"\n'
                        '#include "%s"\nextern "C" %s\n' % (d[0], body))
        _sym[name] = 'vp_f_' + name
        return _sym[name]
    raise SymEscape('C function %s not found' % name)


def bind(tr, ns):
    """gives the encoded Cython module its C and C++ functions"""
    d = os.path.dirname(tr.fn)
    for as_name, m in list(tr.cimported.items()):
        if isinstance(m, tuple):
            mod, name = m
            if mod.startswith('.'):
                DECL.load(os.path.join(d, mod.lstrip('.') + '.pxd'))
    own = tr.fn[:-4] + '.pxd'
    DECL.load(own)
    for n in tr.externs:
        DECL.extern(n)
        for s in (n.body.stats if hasattr(n.body, 'stats') else [n.body]):
            if type(s).__name__ == 'CVarDefNode':
                for de in s.declarators:
                    x = de
                    while hasattr(x, 'base') and type(x).__name__ != 'CNameDeclaratorNode':
                        x = x.base
                    if x.name == 'dynamic_cast_ptr':
                        ns[x.name] = dyncast(s.base_type.name)
                    elif (getattr(x, 'cname', None) or '').startswith('dynamic_cast<'):
                        ns[x.name] = dyncast(s.base_type.name)
                    else:
                        ns[x.name] = cfunc(x.name)
    for s in tr.extern_vars:
        for de in s.declarators:
            mem, met = {}, {}
            DECL.decl(s.base_type, de, mem, met)
            for k, v in met.items():
                DECL.funcs[k] = (None,) + v[0]
                ns[k] = cfunc(k)
    for as_name, m in list(tr.cimported.items()):
        if isinstance(m, tuple):
            mod, name = m
            if name == '*':
                for k in DECL.funcs:
                    ns.setdefault(k, cfunc(k))
            elif name in DECL.funcs:
                ns[as_name] = cfunc(name)
    ns['_new'] = lambda cls: lambda *a: new(cls, *a)
    ns['_sizeof'] = sizeof
    ns['_local'] = lambda cls: new_struct(cls) if cls in DECL.classes else None
    ns['_struct'] = new_struct
    ns['memcpy'] = lambda d, s, n: PROG.memcpy(_pp(d), _pp(s), n)
    for f in sorted(os.listdir(d)):
        if f.endswith('.c') and not os.path.exists(os.path.join(d, f[:-2] + '.pyx')):
            PROG.add_source(os.path.join(d, f))


def _pp(x):
    return x._p if isinstance(x, (CPtr, CObj)) else to_ir(x)


def dyncast(target):
    def g(o):
        if isinstance(o, CObj):
            return CObj(PROG.call(glue(o._c, 'dc_' + target,
                                       'void *@NAME@(%s *o) { return (void *)(%s *)o; }' % (o._c, target)),
                                  [o._p]), target)
        raise SymEscape('dynamic cast of %r' % (o,))
    return g
