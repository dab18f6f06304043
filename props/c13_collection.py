"""C13 ordered collections behave like lists that are also keyed by id"""
from symex.case import Case, Property

INFO = {
 'bounds': 'collections of up to three objects, any sequence of two operations (three in thorough) out of add, '
           'add several, remove and replace by index or id, del, item assignment; indices -5..5, slices with '
           'bounds -5..5 and step -2..2',
 'outside': 'replacing by an object that is already elsewhere in the collection',
 'stubs': [],
 'assumptions': ['objects have distinct ids'],
}


class Obj:
    def __init__(self, i):
        self.id = 'obj-%d' % i


class Plain:
    pass


def same(cx, oc, L, gone, label):
    cx.prove(len(oc) == len(L), label + ': length')
    got = list(oc)
    cx.prove(len(got) == len(L) and all(a is b for a, b in zip(got, L)), label + ': order of iteration')
    v = oc.values()
    cx.prove(len(v) == len(L) and all(a is b for a, b in zip(v, L)), label + ': values')
    for i, o in enumerate(L):
        cx.prove(o in oc, label + ': contains')
        cx.prove(oc.index(o) == i, label + ': index of an object')
        cx.prove(oc[i] is o, label + ': by position')
        cx.prove(oc[i - len(L)] is o, label + ': by position from the end')
        key = o.id if hasattr(o, 'id') else str(id(o))
        cx.prove(oc[key] is o, label + ': by id')
        cx.prove(oc.index(key) == i, label + ': index of an id')
    for o in gone:
        cx.prove(o not in oc, label + ': removed objects are not there')
        try:
            oc.index(o)
            cx.prove(False, label + ': removed objects have no index')
        except ValueError:
            pass
    cx.prove([d['id'] for d in oc.to_dict()] ==
             [o.id if hasattr(o, 'id') else str(id(o)) for o in L], label + ': to_dict')


def key(o):
    return o.id if hasattr(o, 'id') else str(id(o))


def ops(cx, steps=2, nmax=3, cls=Obj):
    from gnome.utilities.orderedcollection import OrderedCollection
    n = cx.choice('n', list(range(nmax + 1)))
    make = (lambda i: Obj(i)) if cls is Obj else (lambda i: Plain())
    pool = [make(i) for i in range(nmax + 3 * steps)]
    L = pool[:n]
    nxt = n
    oc = OrderedCollection(list(L), dtype=cls)
    log, want, gone = [], [], []
    oc.register_callback(lambda o: log.append(('add', o)), 'add')
    oc.register_callback(lambda o: log.append(('remove', o)), 'remove')
    oc.register_callback(lambda o: log.append(('replace', o)), 'replace')
    same(cx, oc, L, gone, 'fresh')
    for s in range(steps):
        op = cx.choice('op%d' % s, ['add', 'again', 'several', 'remove', 'remove-id', 'replace', 'replace-id',
                                    'wrong', 'remake', 'clear'])
        if op == 'add':
            oc += pool[nxt]
            L.append(pool[nxt])
            want.append(('add', pool[nxt]))
            nxt += 1
        elif op == 'again':
            if not L:
                return
            oc.add(L[-1])
        elif op == 'several':
            oc.add([pool[nxt], pool[nxt + 1]] + L[:1])
            L += pool[nxt:nxt + 2]
            want += [('add', pool[nxt]), ('add', pool[nxt + 1])]
            nxt += 2
        elif op in ('remove', 'replace'):
            i = cx.choice('i%d' % s, list(range(-nmax - 2, nmax + 3)))
            try:
                o = L[i]
            except IndexError:
                o = None
            try:
                if op == 'remove':
                    del oc[i]
                else:
                    oc[i] = pool[nxt]
                ok = True
            except IndexError:
                ok = False
            cx.prove(ok == (o is not None), op + ': a position outside is refused')
            if ok and o is not None:
                gone.append(o)
                if op == 'remove':
                    del L[i]
                    want.append(('remove', o))
                else:
                    L[i] = pool[nxt]
                    want.append(('replace', pool[nxt]))
            nxt += 1
        elif op in ('remove-id', 'replace-id'):
            if not L:
                return
            i = cx.choice('i%d' % s, list(range(nmax)))
            if i >= len(L):
                return
            o = L[i]
            gone.append(o)
            if op == 'remove-id':
                oc.remove(key(o))
                del L[i]
                want.append(('remove', o))
            else:
                oc.replace(key(o), pool[nxt])
                L[i] = pool[nxt]
                want.append(('replace', pool[nxt]))
                nxt += 1
        elif op == 'wrong':
            for bad in (lambda: oc.add(3.5), lambda: oc.replace(0, 'x'), lambda: oc.add([pool[nxt], 7])
                        if False else oc.add([7])):
                try:
                    bad()
                    cx.prove(False, 'wrong: objects of another type are refused')
                except (TypeError, IndexError):
                    pass
        elif op == 'remake':
            oc.remake()
        elif op == 'clear':
            oc.clear()
            gone += L
            L = []
        same(cx, oc, L, gone, op)
        cx.prove(len(log) == len(want) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(log, want)),
                 op + ': callbacks')
    cx.observe('n', len(L))


def slices(cx, n=3):
    from gnome.utilities.orderedcollection import OrderedCollection
    L = [Obj(i) for i in range(n + 1)]
    oc = OrderedCollection(list(L), dtype=Obj)
    # positions after a removal differ from storage positions
    r = cx.choice('removed', [None] + list(range(n + 1)))
    if r is not None:
        del oc[r]
        del L[r]
    kind = cx.choice('kind', ['both', 'start', 'stop', 'step', 'index'])
    if kind == 'index':
        i = cx.int('i', -5, 5)
        try:
            w = L[i]
        except IndexError:
            w = None
        try:
            g = oc[i]
        except IndexError:
            g = None
        cx.prove(g is w, 'get: as a list')
        return
    a = cx.int('a', -5, 5) if kind in ('both', 'start', 'step') else None
    b = cx.int('b', -5, 5) if kind in ('both', 'stop', 'step') else None
    c = cx.int('c', -2, 2) if kind == 'step' else None
    if c is not None:
        cx.assume(c != 0)
    s = slice(a, b, c)
    want = L[s]
    got = oc[s]
    cx.observe('len', len(got))
    cx.prove(len(got) == len(want) and all(x is y for x, y in zip(got, want)), 'slice: as a list')


def equal(cx):
    from gnome.utilities.orderedcollection import OrderedCollection
    n = cx.choice('n', [0, 1, 2])
    m = cx.choice('m', [0, 1, 2])
    A = [cx.int('a%d' % i, 0, 3) for i in range(n)]
    B = [cx.int('b%d' % i, 0, 3) for i in range(m)]

    class V:
        def __init__(self, v):
            self.v = v

        def __eq__(self, o):
            return self.v == o.v

        def __ne__(self, o):
            return self.v != o.v
    x = OrderedCollection([V(a) for a in A], dtype=V)
    y = OrderedCollection([V(b) for b in B], dtype=V)
    want = n == m and bool(cx.all([a == b for a, b in zip(A, B)] or [True]))
    cx.prove(bool(x == y) == want, 'equal: same values in the same order')
    cx.prove(bool(x != y) == (not want), 'not equal')


PROP = Property('C13', [
    Case('ops', ops, max_paths=30000),
    Case('ops-plain', ops, dict(cls=Plain, nmax=2), max_paths=30000),
    Case('slices', slices, max_paths=30000),
    Case('equal', equal),
    Case('ops-3', ops, dict(steps=3, nmax=2), tier='thorough', max_paths=100000, budget=1500),
])
