"""colander and json for symbolic values.

colander's Float/Int write the shortest text that reads back as the same number, its DateTime an ISO string that reads
back as the same time, and gnome turns the text back into numbers at once: on symbolic numbers and times these are
identities (Int truncates).  json keeps the structure; a symbolic leaf is written as a numbered mark and read back as the
same leaf.  Everything else (schemas, validators, files) is the real code.
"""
import json as _json
import types

from . import core, shims
from .core import Sym, SymBool, SymTime, SymDelta

_leaves = []


def _enc(o):
    if isinstance(o, (Sym, SymBool, SymTime, SymDelta)):
        _leaves.append(o)
        return {'__symbolic__': len(_leaves) - 1}
    raise TypeError('Object of type %s is not JSON serializable' % type(o).__name__)


def _dec(d):
    if '__symbolic__' in d:
        return _leaves[d['__symbolic__']]
    return d


class JsonShim(types.ModuleType):
    def __init__(self):
        super().__init__('json')
        for n in dir(_json):
            if not n.startswith('__'):
                self.__dict__[n] = getattr(_json, n)
        self.dumps = lambda o, **k: _json.dumps(o, default=k.pop('default', _enc), **k)
        self.dump = lambda o, f, **k: _json.dump(o, f, default=k.pop('default', _enc), **k)
        self.loads = lambda s, **k: _json.loads(s, object_hook=k.pop('object_hook', _dec), **k)
        self.load = lambda f, **k: _json.load(f, object_hook=k.pop('object_hook', _dec), **k)


def install(P):
    import colander
    js = JsonShim()
    shims.register(_json, js)

    def wrap(cls, name, kinds, conv):
        real = getattr(cls, name)

        def f(self, node, x, *a, **k):
            if isinstance(x, kinds):
                return conv(x)
            return real(self, node, x, *a, **k)
        setattr(cls, name, f)
    num = lambda x: x._num() if isinstance(x, SymBool) else x   # noqa
    for name in ('serialize', 'deserialize'):
        wrap(colander.Float, name, (Sym, SymBool), lambda x: num(x) if not num(x).is_int else num(x) * 1.0)
        wrap(colander.Integer, name, (Sym, SymBool), lambda x: shims.IntB(num(x)))
        wrap(colander.Boolean, name, (Sym, SymBool), bool)
        wrap(colander.DateTime, name, (SymTime,), lambda x: x)
    return {}
