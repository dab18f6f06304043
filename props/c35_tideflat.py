"""C35: tide flats hold the oil while they are dry"""
import datetime as dt

from symex.case import Case, Property
from props.lib import BASE, set_array
from props.c05_land import cells
from props.c06_beaching import a_map, container, rect, cell, within, inside as in_bounds, D, LON0, LAT0, WATER, LAND, OFF

INFO = {
    'functions': ['TideflatMap.beach_elements', 'TideflatMap.refloat_elements', 'TideflatMap.__getattr__',
                  'TideflatBase.is_dry', 'TideflatBase.is_wet', 'SimpleTideflat.is_dry', 'RasterMap.beach_elements',
                  'RasterMap.refloat_elements', 'GnomeMap.beach_elements', 'points_in_poly (Cython and C)'],
    'bounds': 'flats in the form of a triangle, a rectangle and a bent polygon, any point around them, any time from a '
              'day before to a day after the dry hours; one to three elements of any of five states over a map of land '
              'and water cells or without land; histories of up to three steps (thorough: four); any answer of a '
              'tide flat object per element and step',
    'outside': 'points within rounding error of the edge of the flat; more elements',
    'stubs': ['a tide flat object with any answers, next to the SimpleTideflat of the repository'],
    'assumptions': ['machine floats as reals'],
}
FLAT, TOGO = 32, 12
SHAPES = {'triangle': ((0., 0.), (4., 0.), (0., 4.)),
          'rectangle': ((0., 1.), (4., 1.), (4., 3.), (0., 3.)),
          'bent': ((0., 0.), (4., 0.), (4., 4.), (2., 1.), (0., 4.))}


def in_flat(cx, shape, x, y, eps=0):
    """strictly inside by a margin eps (or outside, for negative eps, by more than it)"""
    if shape == 'triangle':
        return cx.all([x > eps, y > eps, x + y < 4 - eps])
    if shape == 'rectangle':
        return cx.all([x > eps, x < 4 - eps, y > 1 + eps, y < 3 - eps])
    # below one of the two edges of the notch
    return cx.all([x > eps, x < 4 - eps, y > eps,
                   cx.any([cx.all([x <= 2, 3 * x + 2 * y < 8 - eps]), cx.all([x >= 2, 2 * y - 3 * x < -4 - eps])])])


def simple(cx, shape, n):
    from gnome.maps.tideflat_map import SimpleTideflat
    t0, t1 = BASE, BASE + dt.timedelta(hours=6)
    as_list = cx.flag('list')
    b = [list(p) for p in SHAPES[shape]]
    f = SimpleTideflat(b if as_list else cx.array(b), t0, t1)
    p = [[cx.real('x%d' % i, -1, 6), cx.real('y%d' % i, -1, 6), cx.real('z%d' % i, 0, 10)] for i in range(n)]
    q = cx.int('q', -86400, 86400 + 6 * 3600)
    t = BASE + cx.secs(q)
    a = cx.array(p)
    dry, wet = f.is_dry(a, t), f.is_wet(a, t)
    cx.prove(cx.all([len(dry) == n, len(wet) == n]), 'an answer per point')
    when = cx.all([q >= 0, q <= 6 * 3600])
    for i in range(n):
        d, w = bool(dry[i]), bool(wet[i])
        cx.observe('dry%d' % i, d)
        cx.prove(d != w, 'a point is either dry or wet')
        x, y = p[i][0], p[i][1]
        cx.prove(cx.implies(d, cx.all([when, in_flat(cx, shape, x, y, -1e-6)])), 'dry only on the flat in the dry hours')
        cx.prove(cx.implies(cx.all([when, in_flat(cx, shape, x, y, 1e-6)]), d), 'all of the flat is dry in the dry hours')
        cx.prove(cx.all([a[i][j] == p[i][j] for j in range(3)]), 'the points are left alone')


def base(cx):
    from gnome.maps.tideflat_map import TideflatBase
    f = TideflatBase()
    n = cx.choice('n', [1, 3])
    p = cx.array([[cx.real('x%d' % i, -1, 6), 0., 0.] for i in range(n)])
    d, w = f.is_dry(p, BASE), f.is_wet(p, BASE)
    cx.prove(len(d) == n and len(w) == n and not any(d) and all(w), 'no flat: wet everywhere')


class Flat:
    """a flat that answers by a list of flags per call, for the elements named by their longitude"""

    def __init__(self, cx, xs, n):
        self.cx, self.xs, self.n, self.k, self.plan, self.asked = cx, xs, n, 0, {}, []

    def dry(self, step, i):
        if (step, i) not in self.plan:
            self.plan[step, i] = self.cx.flag('dry%d_%d' % (step, i))
        return self.plan[step, i]

    def _who(self, p):
        L = [i for i in range(self.n) if p[0] is self.xs[i] or bool(p[0] == self.xs[i])]
        assert len(L) == 1, L
        return L[0]

    def is_dry(self, points, time):
        import numpy as np
        self.asked.append(time)
        return np.array([self.dry(self.k, self._who(p)) for p in points], dtype=bool)

    def is_wet(self, points, time):
        import numpy as np
        return np.logical_not(self.is_dry(points, time))


def states(cx, n, steps, codes):
    """a map without land; any answers of the flat over a number of steps"""
    from gnome.maps.map import GnomeMap
    from gnome.maps.tideflat_map import TideflatMap
    xs = [1.0 + 0.5 * i for i in range(n)]
    sc = container(cx, n)
    st = [cx.choice('st%d' % i, list(codes)) for i in range(n)]
    f = Flat(cx, xs, n)
    M = TideflatMap(GnomeMap(), f)
    y = cx.real('y', -10, 10)
    pos = [[xs[i], y, 0.] for i in range(n)]
    for k in ('positions', 'next_positions', 'last_water_positions'):
        set_array(sc, k, pos)
    set_array(sc, 'status_codes', st)
    now = list(st)
    for k in range(steps):
        f.k = 2 * k
        t = BASE + dt.timedelta(seconds=900 * k)
        f.asked = []
        M.refloat_elements(sc, 900, t)
        cx.prove(all(a == t for a in f.asked), 'the flat is asked about the time of the model')
        for i in range(n):
            if now[i] == FLAT and not f.dry(2 * k, i):
                now[i] = WATER
            cx.prove(sc['status_codes'][i] == now[i], 'an element leaves the flat when it is wet, and no other changes')
        f.k = 2 * k + 1
        f.asked = []
        M.beach_elements(sc, t)
        cx.prove(all(a == t for a in f.asked), 'the flat is asked about the time of the model')
        for i in range(n):
            if now[i] == WATER and f.dry(2 * k + 1, i):
                now[i] = FLAT
            cx.prove(sc['status_codes'][i] == now[i], 'an element in water settles where it is dry, and no other changes')
            for a in ('positions', 'next_positions'):
                cx.prove(cx.all([sc[a][i][0] == xs[i], sc[a][i][1] == y]), 'settling moves nothing')


def land(cx, n, halflife):
    """a map of land and water: landfall first, then the flat"""
    from gnome.cy_gnome.cy_land_check import find_first_pixel
    from gnome.maps.tideflat_map import TideflatMap, SimpleTideflat
    from props.c05_land import grid_of
    m = 3
    G = cells(cx, m, 1)
    L = a_map(cx, G, rect(m, 1, 0), halflife)
    # the flat: from the middle of the first cell to the end of the second
    fx0, fx1 = LON0 + D / 2, LON0 + 2 * D
    t0, t1 = BASE, BASE + dt.timedelta(hours=6)
    M = TideflatMap(L, SimpleTideflat(((fx0, LAT0), (fx1, LAT0), (fx1, LAT0 + D), (fx0, LAT0 + D)), t0, t1))
    sc = container(cx, n)
    y = LAT0 + D / 2
    a = [LON0 + D / 4] + [LON0 + D * 2.5] * (n - 1)
    b = [cx.real('b', LON0, LON0 + D * m, lo_strict=True, hi_strict=True)] + [LON0 + D * 2.5] * (n - 1)
    st = [WATER] + [cx.choice('st%d' % i, [WATER, LAND, FLAT]) for i in range(1, n)]
    for i in range(1, n):
        cx.assume(cx.iff(st[i] == LAND, G[2][0] != 0))
    mass = [cx.real('m%d' % i, 0, 100) for i in range(n)]
    set_array(sc, 'positions', [(x, y, 0.) for x in a])
    set_array(sc, 'next_positions', [(x, y, 0.) for x in b])
    set_array(sc, 'last_water_positions', [(LON0 + D * 1.5, y, 0.)] * n)
    set_array(sc, 'mass', mass)
    set_array(sc, 'status_codes', st)
    q = cx.choice('q', [-1, 0, 3 * 3600, 6 * 3600, 6 * 3600 + 1])
    when = 0 <= q <= 6 * 3600
    t = BASE + dt.timedelta(seconds=q)
    M.beach_elements(sc, t)
    r = find_first_pixel(grid_of(cx, G), (0, 0), (cx.floor((b[0] - LON0) / D), 0))
    s, x = sc['status_codes'][0], sc['next_positions'][0][0]
    if r is not None:
        cx.prove(s == LAND, 'landfall comes before the flat')
    else:
        cx.prove(x == b[0], 'a move over a flat is made in full')
        clear = cx.any([x < fx0 - 1e-6, x > fx1 + 1e-6])
        over = cx.all([x > fx0 + 1e-6, x < fx1 - 1e-6])
        cx.prove(cx.implies(clear, s == WATER), 'water off the flat')
        cx.prove(cx.implies(over, s == (FLAT if when else WATER)), 'on the flat in the dry hours')
    beached = cx.ite(s == LAND, mass[0], 0)
    for i in range(1, n):
        want = st[i]
        cx.prove(sc['status_codes'][i] == want, 'elements elsewhere keep their state')
        beached = beached + (mass[i] if want == LAND else 0)
    cx.prove(cx.close(sc.mass_balance['beached'], beached), 'the beached mass is that of the land map')
    # six hours on: wet again, and the land map refloats what it would
    late = t1 + dt.timedelta(hours=1)
    n0 = len(cx.draws)
    before = [sc['status_codes'][i] for i in range(n)]
    M.refloat_elements(sc, 900, late)
    for i in range(n):
        got, was = sc['status_codes'][i], before[i]
        if halflife < 0:
            cx.prove(got == cx.ite(was == FLAT, WATER, was), 'wet again: back in the water; no refloating from land')
        elif halflife == 0:
            cx.prove(got == WATER, 'wet again: back in the water; all refloated from land')
            cx.prove(cx.implies(was == LAND, sc['positions'][i][0] == sc['last_water_positions'][i][0]),
                     'refloated to the last water position')


def refloat(cx, n, halflife):
    """elements on land and on the flat at once: both maps do their part"""
    from gnome.maps.tideflat_map import TideflatMap
    xs = [LON0 + D * 0.25 * (i + 1) for i in range(n)]
    f = Flat(cx, xs, n)
    M = TideflatMap(a_map(cx, [[0], [0], [0]], rect(3, 1, 0), halflife), f)
    sc = container(cx, n)
    st = [cx.choice('st%d' % i, [WATER, LAND, FLAT]) for i in range(n)]
    y = LAT0 + D / 2
    lw = [(cx.real('w%d' % i, -50, 50), y, 0.) for i in range(n)]
    for k in ('positions', 'next_positions'):
        set_array(sc, k, [(x, y, 0.) for x in xs])
    set_array(sc, 'last_water_positions', lw)
    set_array(sc, 'status_codes', st)
    step = cx.choice('dt', [900, 7200])
    d = len(cx.draws)
    M.refloat_elements(sc, step, BASE)
    for i in range(n):
        got, p = sc['status_codes'][i], sc['positions'][i]
        if st[i] != LAND:
            want = WATER if st[i] == FLAT and not f.dry(0, i) else st[i]
            cx.prove(cx.all([got == want, p[0] == xs[i]]), 'elements on the flat leave it when it is wet')
            continue
        back = cx.all([got == WATER, p[0] == lw[i][0]])
        if halflife == 0:
            cx.prove(back, 'the enclosed map refloats what it would')
        else:
            u, c = cx.draws[d], 1.0 - 0.5 ** (step / (halflife * 3600.0))
            d += 1
            cx.prove(cx.implies(u < c - 1e-9, back), 'the enclosed map refloats by its half life')
            cx.prove(cx.implies(u > c + 1e-9, cx.all([got == LAND, p[0] == xs[i]])), 'and keeps the others on land')


def delegate(cx):
    """all else is the land map's"""
    from gnome.maps.tideflat_map import TideflatMap, SimpleTideflat
    m, n = 2, 2
    G = cells(cx, m, n)
    L = a_map(cx, G, rect(m, n, 0), 1)
    t0 = BASE
    M = TideflatMap(L, SimpleTideflat(rect(m, n, 1), BASE, BASE + dt.timedelta(hours=6)))
    x = cx.real('x', LON0 - D, LON0 + D * (m + 1), lo_strict=True, hi_strict=True)
    y = LAT0 + cx.choice('row', [0.25, 0.75]) * D * n
    p = (x, y, 0.)
    for f in ('on_map', 'on_land', 'in_water', 'allowable_spill_position'):
        a, b = getattr(M, f)(p), getattr(L, f)(p)
        cx.prove(bool(a) == bool(b), 'the land map answers: ' + f)
    cx.prove(M.map_bounds is L.map_bounds and M.refloat_halflife == L.refloat_halflife, 'the attributes of the land map')


PROP = Property('C35', [
    Case('simple-' + s, simple, dict(shape=s, n=1)) for s in sorted(SHAPES)
] + [
    Case('simple-2', simple, dict(shape='rectangle', n=2)), Case('base', base),
    Case('states-1', states, dict(n=1, steps=3, codes=(WATER, FLAT, LAND, OFF, TOGO))),
    Case('states-2', states, dict(n=2, steps=2, codes=(WATER, FLAT, LAND))),
    Case('states-3', states, dict(n=3, steps=1, codes=(WATER, FLAT, OFF))),
    Case('states-2-long', states, dict(n=2, steps=4, codes=(WATER, FLAT, LAND)), tier='thorough', budget=900),
    Case('land-keep', land, dict(n=2, halflife=-1)), Case('land-1', land, dict(n=1, halflife=1)),
    Case('land-none', land, dict(n=2, halflife=1)), Case('delegate', delegate),
    Case('refloat-0', refloat, dict(n=2, halflife=0)), Case('refloat-1', refloat, dict(n=2, halflife=1)),
], pyx=['gnome.utilities.geometry.cy_point_in_polygon', 'gnome.cy_gnome.cy_land_check'])
