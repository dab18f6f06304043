"""text and binary files holding symbolic values.

A symbolic number formatted into text, dumped by geojson or written by tofile leaves a numbered mark in its place; text(),
load() and fromfile() give it back as the same value (and read plain files as they are).  Rounding by the format itself
(".8g", 32-bit floats) is not modelled: what is compared is compared within it."""
import json
import re

import numpy as np

from . import core
from .core import Sym, SymBool, SymTime, SymDelta
from . import colenc

_leaves = []


def _mark(x):
    _leaves.append(x)
    return len(_leaves) - 1


def text(s):
    m = re.fullmatch(r'\s*@(\d+)@\s*', s)
    return _leaves[int(m.group(1))] if m else float(s)


def load(path):
    with open(path, encoding='utf-8') as f:
        return json.load(f, object_hook=colenc._dec)


def fromfile(data, dtype, off=0, n=1):
    """n records -> list of dicts; a symbolic run wrote marks"""
    a = np.frombuffer(data, dtype=dtype, count=n, offset=off)
    out = []
    for r in a:
        d = {}
        for f in dtype.names:
            v = r[f]
            d[f] = _leaves[int(v)] if _written.get(len(data)) and dtype[f].kind == 'f' else v.item()
        out.append(d)
    return out


_written = {}


def tofile(self, f, *a):
    """every floating field is written as the number of its leaf"""
    b = np.zeros((self.n,), dtype=self.dtype)
    for i in range(self.n):
        for k in self.dtype.names:
            v = self.cols[k][i]
            if self.dtype[k].kind == 'f':
                v = _mark(v)
            elif isinstance(v, (Sym, SymBool)):
                v = int(v)
            b[k][i] = v
    f.write(b.tobytes())
    _written[f.tell()] = True


def install(P):
    import numbers
    import geojson
    from . import structarr
    colenc.install(P)
    core.FORMAT = lambda x, spec: '@%d@' % _mark(x)
    numbers.Real.register(Sym)
    real = geojson.GeoJSONEncoder.default

    def default(self, o):
        if isinstance(o, (Sym, SymBool, SymTime, SymDelta)):
            return colenc._enc(o)
        return real(self, o)
    geojson.GeoJSONEncoder.default = default
    structarr.StructArr.tofile = tofile
    return {}
