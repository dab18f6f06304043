"""C09: the element arrays of a spill container stay aligned"""
import datetime as dt

import numpy as _np

from symex.case import Case, Property
from props.lib import BASE, small_oil, make_sc, set_array, sym_masses, total

INFO = {
    'functions': ['SpillContainer.release_elements', 'SpillContainer.split_element',
                  'SpillContainer.model_step_is_done', 'SpillContainer.itersubstancedata',
                  'FateDataView.get_data', 'FateDataView.update_sc', 'ArrayType.split_element',
                  'ArrayTypeDivideOnSplit.split_element', 'SpillContainerPair'],
    'bounds': 'two spills (one continuous, one instantaneous at any of the steps) of 1 to 3 elements with '
              'arbitrary masses, component masses and positions; histories of two operations after a release '
              '(three in thorough) out of: release of the next step, removal of any subset, split of any element '
              'into 2 or 3 by any fractions; for the fate views 1 to 2 elements (3 in thorough) of any fate and mass, two rounds '
              'of reading, writing back and changing fates; pairs with up to three spills and any two changes',
    'outside': 'float64 rounding; more elements',
    'stubs': [],
    'assumptions': [],
}
STEP = 600


def snap(sc):
    """rows of the container: [{array: value or tuple}]"""
    names = sorted(sc.array_types)
    rows = []
    for i in range(len(sc)):
        r = {}
        for a in names:
            v = sc[a]
            r[a] = v[i] if v.ndim == 1 else tuple(v[i, j] for j in range(v.shape[1]))
        rows.append(r)
    return rows


def same(cx, a, b):
    if isinstance(a, tuple):
        return cx.all([same(cx, x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if isinstance(a, float) and a != a:
        return b != b
    return cx.close(a, b, 1e-9)


def identical(a, b):
    if isinstance(a, tuple):
        return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if a is b:
        return True
    if plain(a) and plain(b):
        return bool(a == b) or bool(a != a and b != b)
    return False


def plain(a):
    return type(a) in (int, float, bool) or isinstance(a, _np.generic)


def check(cx, sc, rows, label):
    n = len(rows)
    cx.prove(len(sc) == n and all(len(sc[a]) == n for a in sc.array_types), label + ': all arrays of that length')
    now = snap(sc)
    if len(now) != n:
        return
    todo = []
    for x, y in zip(now, rows):
        for a in x:
            if not identical(x[a], y[a]):
                todo.append(same(cx, x[a], y[a]))
    cx.prove(cx.all(todo) if todo else True, label + ': every element has the values it should have')


def ops(cx, n=2, kinds=('release', 'remove', 'split'), weathering=True, first=None, seq=None):
    from gnome.spill_container import SpillContainer
    from gnome.spills.spill import Spill
    from gnome.spills.release import PointLineRelease
    from gnome.array_types import gat
    from gnome.basic_types import oil_status
    oil = small_oil(2) if weathering else None
    late = cx.choice('late', [1] if seq else [0, 1])
    A = Spill(release=PointLineRelease(release_time=BASE, start_position=(1., 2., 0.), num_elements=5 if seq else 3,
                                       end_release_time=BASE + dt.timedelta(seconds=(4 if seq else 2) * STEP)),
              substance=oil, amount=50 if seq else 30, units='kg')
    B = Spill(release=PointLineRelease(release_time=BASE + dt.timedelta(seconds=late * STEP),
                                       start_position=(5., 6., 0.), num_elements=2 if weathering else 1),
              substance=oil, amount=20, units='kg')
    sc = SpillContainer(uncertain=not weathering)
    order = not weathering
    for s in ([B, A] if order else [A, B]):
        sc.spills += s
    ats = {a: gat(a) for a in ('windages', 'frac_water')}
    ats.update(A.all_array_types)
    sc.prepare_for_model_run(ats, STEP)
    seen = set()
    k = 0

    def release(rows):
        before = [id(r) for r in rows]
        got = sc.release_elements(BASE + dt.timedelta(seconds=k * STEP), BASE + dt.timedelta(seconds=(k + 1) * STEP),
                                  environment={'water': None})
        cx.prove(len(sc) == len(before) + got, 'release: adds what it says')
        new = snap(sc)[len(rows):]
        for j, r in enumerate(new):
            i = len(rows) + j
            cx.prove(int(r['id']) not in seen, 'release: a new element gets an id nobody had')
            seen.add(int(r['id']))
            which = [A, B][0 if bool(r['positions'][0] < 3) else 1]
            cx.prove(int(r['spill_num']) == sc.spills.index(which), 'release: marked with its spill')
            cx.prove(cx.close(r['mass'], 10.0 if which is A else 20.0 / B.release.num_elements), 'release: its share')
            m = cx.real('m%d_%d' % (k, i), 0, 100)
            sc['mass'][i] = m
            sc['positions'][i, 0] = cx.real('x%d_%d' % (k, i), 0, 2) if which is A else cx.real(
                'x%d_%d' % (k, i), 4, 6)
            sc['density'][i] = cx.real('d%d_%d' % (k, i), 800, 1000)
            if weathering:
                f = cx.real('f%d_%d' % (k, i), 0, 1)
                sc['mass_components'][i, 0] = m * f
                sc['mass_components'][i, 1] = m * (1 - f)
        fresh = snap(sc)
        return rows + fresh[len(rows):]

    rows = release([])
    k += 1
    check(cx, sc, rows, 'first release')
    for step in range(n):
        op = cx.choice('op%d' % step, [seq[step]] if seq else list(first if first and step == 0 else kinds))
        if op == 'release':
            rows = release(rows)
            k += 1
        elif op == 'remove':
            keep = []
            for i, r in enumerate(rows):
                if cx.flag('gone%d_%d' % (step, i)):
                    sc['status_codes'][i] = oil_status.to_be_removed
                else:
                    keep.append(r)
            sc.model_step_is_done()
            rows = keep
        else:
            if not rows:
                continue
            i = cx.choice('at%d' % step, list(range(len(rows))))
            num = cx.choice('num%d' % step, [2, 3])
            first = [j for j in range(len(rows)) if int(rows[j]['id']) == int(rows[i]['id'])][0]
            if cx.flag('frac%d' % step):
                fr = [cx.real('fr%d_%d' % (step, j), 0, 1) for j in range(num - 1)]
                fr.append(1 - total(fr))
                cx.assume(fr[-1] >= 0)
                sc.split_element(int(rows[i]['id']), num, fr)
            else:
                fr = [1.0 / num] * num
                sc.split_element(int(rows[i]['id']), num)
            parts = []
            old = rows[first]
            for f in fr:
                p = dict(old)
                for a in ('mass', 'init_mass', 'bulk_init_volume', 'mass_components'):
                    if a in p:
                        p[a] = tuple(x * f for x in p[a]) if isinstance(p[a], tuple) else p[a] * f
                parts.append(p)
            rows = rows[:first] + parts + rows[first + 1:]
        check(cx, sc, rows, op)
    for s in (A, B):
        m = sc.get_spill_mask(s)
        for i in range(len(rows)):
            cx.prove(bool(m[i]) == (int(rows[i]['spill_num']) == sc.spills.index(s)), 'mask of a spill')
    cx.observe('n', len(rows))


def views(cx, n=2, rounds=2, split=False, reset=False):
    """what a process reads for a fate and writes back reaches exactly the elements of that fate with mass"""
    from gnome.basic_types import fate
    from gnome.array_types import gat
    n = cx.choice('n', n if isinstance(n, list) else [n])
    sc = make_sc(cx, n, small_oil(2), [{a: gat(a) for a in ('frac_water', 'fate_status')}])
    comps = [[0.0, 0.0] if i == n - 1 and cx.flag('empty') else
             [cx.real('m_%d_%d' % (i, j), 1, 100) for j in range(2)] for i in range(n)]
    set_array(sc, 'mass_components', comps)
    set_array(sc, 'mass', [a + b for a, b in comps])
    names = ['surface_weather', 'skim', 'non_weather'] + ['burn', 'disperse'] * split
    st = [cx.choice('fate%d' % i, names if i == n - 1 else ['surface_weather', 'non_weather']) for i in range(n)]
    set_array(sc, 'fate_status', [getattr(fate, s) for s in st])
    for r in range(rounds):
        ask = cx.choice('ask%d' % r, ['surface_weather', 'skim', 'all'])
        sel = [i for i in range(n) if (ask == 'all' or st[i] == ask) and bool(sc['mass'][i] > 0)]
        before = snap(sc)
        arrays = cx.choice('arrays%d' % r, [('mass', 'frac_water', 'id')] if r else [('mass', 'mass_components', 'fate_status'), ('mass', 'frac_water', 'id')])
        write = cx.flag('write%d' % r)
        for sub, data in sc.itersubstancedata({a: gat(a) for a in arrays}, fate_status=ask):
            cx.prove(len(data['mass']) == len(sel), 'view: elements of the fate with mass, no others')
            for a in arrays:
                for j, i in enumerate(sel):
                    v = data[a][j] if data[a].ndim == 1 else tuple(data[a][j, c] for c in range(2))
                    cx.prove(same(cx, v, before[i][a]), 'view: shows the values of its elements')
            if write:
                for j, i in enumerate(sel):
                    left = cx.real('left%d_%d' % (r, i), 0.5, 1) if r or i or n > 1 or not cx.flag('all') else 0.0
                    data['mass'][j] = before[i]['mass'] * left
                    before[i]['mass'] = before[i]['mass'] * left
                    if 'frac_water' in arrays:
                        data['frac_water'][j] = left
                        before[i]['frac_water'] = left
        if write:
            sc.update_from_fatedataview(fate_status=ask)
        cx.prove(len(sc) == n, 'view: the container keeps its elements')
        check(cx, sc, before, 'view')
        # something else changes fates before the next process looks
        if r + 1 < rounds:
            who = n - 1
            st[who] = cx.choice('to%d' % r, names[:2])
            sc['fate_status'][who] = getattr(fate, st[who])
            if reset and cx.flag('reset%d' % r):
                sc.reset_fate_dataview()
    if split:
        m = [sc['mass'][i] for i in range(n)]
        sc.split_element(int(sc['id'][0]), 2)
        now = [m[0] / 2] + [m[0] / 2] + m[1:]
        cx.prove(len(sc) == n + 1 and cx.all([cx.close(sc['mass'][i], now[i]) for i in range(n + 1)]),
                 'view: splitting afterwards')
        for sub, data in sc.itersubstancedata(['mass'], fate_status='surface_weather'):
            want = sum(bool(sc['mass'][i] > 0) and st[max(i - 1, 0)] == 'surface_weather' for i in range(n + 1))
            cx.prove(len(data['mass']) == want, 'view: of the split elements')
    cx.observe('n', n)


def pair(cx, n=2):
    """the uncertain container mirrors the spills of the certain one"""
    from gnome.spill_container import SpillContainerPair
    from gnome.spills.spill import Spill
    from gnome.spills.release import PointLineRelease

    def spill(i):
        return Spill(release=PointLineRelease(release_time=BASE, start_position=(float(i), 2., 0.),
                                              num_elements=i + 1), amount=10 + i, units='kg', name='s%d' % i)
    p = SpillContainerPair(uncertain=cx.flag('uncertain'))
    L = [spill(i) for i in range(cx.choice('m', [1, 2, 3]))]
    p += L[0] if len(L) == 1 else list(L)
    for step in range(n):
        op = cx.choice('op%d' % step, ['add', 'remove', 'removeid', 'replace', 'uncertain', 'rewind', 'clear'])
        if op == 'add':
            s = spill(5 + step)
            p += s
            L.append(s)
        elif op in ('remove', 'removeid'):
            if not L:
                continue
            i = cx.choice('i%d' % step, list(range(len(L))))
            if op == 'remove':
                del p[i]
            else:
                p.remove(L[i].id)
            del L[i]
        elif op == 'replace':
            if not L:
                continue
            i = cx.choice('i%d' % step, list(range(len(L))))
            s = spill(5 + step)
            p[L[i].id if cx.flag('byid%d' % step) else i] = s
            L[i] = s
        elif op == 'uncertain':
            p.uncertain = cx.flag('to%d' % step)
        elif op == 'rewind':
            p.rewind()
        else:
            p.clear()
            L = []
        cx.prove(len(p) == len(L), op + ': number of spills')
        cx.prove(all(x is y for x, y in zip(p, L)), op + ': in order')
        cs = list(p.items())
        cx.prove(len(cs) == (2 if p.uncertain else 1), op + ': one container, or two')
        cx.prove(cs[0].uncertain is False and (len(cs) == 1 or cs[1].uncertain is True), op + ': which is which')
        if p.uncertain:
            U = list(cs[1].spills)
            cx.prove(len(U) == len(L) and all(
                u is not s and u.name == s.name and u.amount == s.amount and
                u.release.num_elements == s.release.num_elements for u, s in zip(U, L)),
                op + ': a copy of each spill in the same order')
    for sc in p.items():
        sc.prepare_for_model_run({}, STEP)
        sc.release_elements(BASE, BASE + dt.timedelta(seconds=STEP), environment={})
        cx.prove(len(sc) == sum(s.release.num_elements for s in L), 'pair: both release the same')
        nums = [int(x) for x in sc['spill_num']]
        cx.prove(nums == [i for i, s in enumerate(L) for _ in range(s.release.num_elements)],
                 'pair: elements marked with their spill')
    cx.observe('n', len(L))


PROP = Property('C09', [
    Case('ops-release', ops, dict(n=2, first=['release']), max_paths=20000),
    Case('ops-remove', ops, dict(n=2, first=['remove']), max_paths=20000),
    Case('ops-split', ops, dict(n=2, first=['split']), max_paths=20000),
    Case('ops-later', ops, dict(n=3, seq=['remove', 'release', 'release']), max_paths=20000),
    Case('ops-later-2', ops, dict(n=3, seq=['release', 'remove', 'release']), max_paths=20000),
    Case('ops-plain', ops, dict(n=2, weathering=False), max_paths=20000),
    Case('views-1', views, dict(n=1, rounds=2), max_paths=30000),
    Case('views-2', views, dict(n=2, rounds=2), max_paths=30000),
    Case('views-split', views, dict(n=2, rounds=1, split=True), max_paths=30000),
    Case('views-reset', views, dict(n=2, rounds=2, split=True, reset=True), tier='thorough', max_paths=60000,
         budget=1500),
    Case('pair', pair, max_paths=20000),
    Case('ops-3', ops, dict(n=3), tier='thorough', max_paths=60000, budget=1500),
    Case('views-3', views, dict(n=3, rounds=2), tier='thorough', max_paths=60000, budget=1500),
])
