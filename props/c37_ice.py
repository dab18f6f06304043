"""C37: gridded winds and currents - grid angle, surface, and ice by the 80-20 rule"""
import math

from symex.case import Case, Property
from props.lib import BASE
from props.c25_random import setup, STATUS

INFO = {
    'functions': ['IceAwareCurrent.at', 'IceAwareWind.at', 'IceAwareRandomMover.get_move', 'GridCurrent.at', 'GridWind.at',
                  'GridWind.transform_result', 'VelocityGrid.__init__', 'VectorVariable.at', 'Weatherer.get_wind_speed',
                  'RandomMover.get_move', 'Random_c::get_move, GetMove (C++, LLVM IR)'],
    'bounds': 'one to three points, any velocities to 50 m/s per component and point, any ice coverage from 0 to 1 per '
              'point, depths to 50 m, grid angles from a set (none, 0, 30, 90, -135 degrees), every coordinate system of a '
              'wind, any minimum wind speed to 5 m/s; diffusion of one or two elements in any state, every value of rand()',
    'outside': 'interpolation in space and time (third-party package gridded, not installable here), units of the data, '
               'the cache of results of gridded, masked values',
    'stubs': ['gridded: the values of the components at the points are inputs', 'ice coverage and velocity: any values'],
    'assumptions': ['machine floats as reals'],
}
ANGLES = [None, 0.0, math.pi / 6, math.pi / 2, -3 * math.pi / 4]


class Field:
    """a gridded variable with the given values at the points"""
    _gnome_unit = None

    def __init__(self, cx, rows):
        self.cx, self.rows, self.asked = cx, rows, []

    def at(self, points, time, **kw):
        self.asked.append((len(points), time, kw.get('extrapolate')))
        return self.cx.array(self.rows)


def fraction(cx, c):
    """how much of the water shows through the ice"""
    return cx.ite(c < 0.2, 1, cx.ite(c >= 0.8, 0, 1 - (c - 0.2) / 0.6))


def field(cx, n, depth=True):
    pts = [[cx.real('lon%d' % i, -180, 180), cx.real('lat%d' % i, -80, 80)] + ([cx.real('z%d' % i, 0, 50)] if depth else [])
           for i in range(n)]
    v = [[cx.real('%s%d' % (k, i), -50, 50) for k in ('u', 'v')] for i in range(n)]
    return pts, v


def rotated(a, u, v):
    if a is None:
        return u, v
    return u * math.cos(a) - v * math.sin(a), u * math.sin(a) + v * math.cos(a)


def same(cx, a, b, what):
    cx.prove(cx.all([a - b <= 1e-9 + 1e-9 * abs(50), b - a <= 1e-9 + 1e-9 * abs(50)]), what)


def ice_of(cx, n):
    c = [cx.real('c%d' % i, 0, 1) for i in range(n)]
    return c, Field(cx, [[x] for x in c])


def current(cx, n, ice):
    from gnome.environment.environment_objects import GridCurrent, IceAwareCurrent
    pts, v = field(cx, n)
    a = cx.choice('angle', ANGLES)
    three = cx.flag('three components')
    w = [cx.real('w%d' % i, -1, 1) if three else 0.0 for i in range(n)]
    comp = [Field(cx, [[v[i][k]] for i in range(n)]) for k in range(2)]
    if three:
        comp.append(Field(cx, [[x] for x in w]))
    kw = dict(name='cur', variables=comp, angle=None if a is None else Field(cx, [[a]] * n))
    if ice:
        iv = [[cx.real('i%s%d' % (k, i), -5, 5) for k in 'uvw'] for i in range(n)]
        c, cover = ice_of(cx, n)
        cur = IceAwareCurrent(ice_velocity=Field(cx, iv), ice_concentration=cover, **kw)
    else:
        cur = GridCurrent(**kw)
    p = cx.array(pts)
    for again in range(2):
        got = cur.at(p, BASE, extrapolate=True)
        cx.prove(got.shape == (n, 3), 'a velocity per point')
        for i in range(n):
            x, y = rotated(a, *v[i])
            want = [x, y, cx.ite(pts[i][2] == 0, 0, w[i])]
            if ice:
                f = fraction(cx, c[i])
                want = [f * want[k] + (1 - f) * iv[i][k] for k in range(3)]
            for k in range(3):
                same(cx, got[i][k], want[k], 'the current%s' % (' among ice: water, ice or in between' if ice else ''))
            cx.observe('u%d' % i, got[i][0])
        for i in range(n):
            cx.prove(cx.all([p[i][k] == pts[i][k] for k in range(3)]), 'the points are left alone')


def wind(cx, n, ice, coord):
    from gnome.environment.environment_objects import GridWind, IceAwareWind
    pts, v = field(cx, n, depth=coord == 'uv')
    a = cx.choice('angle', ANGLES if coord == 'uv' else ANGLES[:1])
    comp = [Field(cx, [[v[i][k]] for i in range(n)]) for k in range(2)]
    kw = dict(name='wind', variables=comp, angle=None if a is None else Field(cx, [[a]] * n))
    c = [0.0] * n
    if ice:
        c, cover = ice_of(cx, n)
        wnd = IceAwareWind(ice_concentration=cover, **kw)
    else:
        wnd = GridWind(**kw)
    p = cx.array(pts)
    if coord == 'speed':
        from gnome.weatherers import Weatherer
        least = cx.real('least', 0, 5)
        wt = Weatherer()
        wt.wind = wnd
        got = wt.get_wind_speed(p, BASE, min_val=least)
        cx.prove(len(got) == n, 'a speed per point')
        for i in range(n):
            r = cx.fn('sqrt', v[i][0] * v[i][0] + v[i][1] * v[i][1])
            want = cx.ite(r < least, least, r) * (fraction(cx, c[i]) if ice else 1)
            same(cx, got[i], want, 'the speed that weathering gets: the least one at least, less what ice takes')
        return
    for again in range(2):
        got = wnd.at(p, BASE, extrapolate=True, coord_sys=coord)
        if 'theta' in coord:
            # the direction does not depend on the ice
            free = GridWind(**kw).at(p, BASE, extrapolate=True, coord_sys='theta')
            for i in range(n):
                same(cx, got[i][-1], free[i][0], 'ice leaves the direction of the wind')
        for i in range(n):
            x, y = rotated(a, *v[i])
            f = fraction(cx, c[i]) if ice else 1
            if coord == 'uv':
                under = pts[i][2] > 0
                same(cx, got[i][0], cx.ite(under, 0, f * x), 'east wind, less what ice takes, none under water')
                same(cx, got[i][1], cx.ite(under, 0, f * y), 'north wind, less what ice takes, none under water')
            elif coord in ('u', 'v'):
                same(cx, got[i][0], f * (x if coord == 'u' else y), 'component of the wind')
            elif coord in ('r', 'r-theta'):
                same(cx, got[i][0], f * cx.fn('sqrt', x * x + y * y), 'wind speed')
        for i in range(n):
            cx.prove(cx.all([p[i][k] == pts[i][k] for k in range(len(pts[i]))]), 'the points are left alone')


def diffusion(cx, n=1, small=False):
    from gnome.movers.random_movers import RandomMover, IceAwareRandomMover
    sc, wet, lat, z = setup(cx, n, 0 if small else 50, False, STATUS[:2] if small else STATUS, [60.0] if small else [0.0, 60.0])
    D, dts = cx.choice('D', [(10.0 ** 5, 900)] if small else [(0.0, 900), (10.0 ** 5, 900), (512.0, -1800)])
    c, cover = ice_of(cx, n)
    cx.limit_draws(4 * n + 2)
    m = IceAwareRandomMover(ice_concentration=cover, diffusion_coef=D)
    m.prepare_for_model_run()
    m.prepare_for_model_step(sc, 900, BASE)
    m.model_step_is_done(sc)
    m.prepare_for_model_step(sc, dts, BASE)
    before = len(cx.crand_used())
    d = m.get_move(sc, dts, BASE)
    draws = cx.crand_used()[before:]
    s = math.sqrt(6 * D / 10000 * abs(dts)) / 111120.00024
    for i in range(n):
        if not (wet[i] and bool(z[i] <= 0)):
            cx.prove(cx.all([d[i][k] == 0 for k in range(3)]), 'only floating elements in the water move')
            continue
        f = fraction(cx, c[i])
        e = s * 1e-4 + 1e-12
        for k, scale in ((0, s / math.cos(math.radians(lat[i]))), (1, s)):
            cx.prove(cx.any([cx.all([d[i][k] - f * scale * (2 * q / 2147483647 - 1) <= e * 2,
                                     f * scale * (2 * q / 2147483647 - 1) - d[i][k] <= e * 2]) for q in draws]),
                     'a uniform draw of the range, less what ice takes')
        cx.prove(d[i][2] == 0, 'no vertical move')
        cx.observe('lat%d' % i, d[i][1])


PROP = Property('C37', [
    Case('current%s-%d' % ('-ice' if ice else '', n), current, dict(n=n, ice=ice)) for ice in (False, True) for n in (1, 2)
] + [
    Case('wind%s-%s-%d' % ('-ice' if ice else '', c, n), wind, dict(n=n, ice=ice, coord=c))
    for ice in (False, True) for c in ('uv', 'u', 'v', 'r', 'theta', 'r-theta', 'speed') for n in (1, 2)
] + [Case('diffusion-1', diffusion),
      Case('diffusion-2-floating', diffusion, dict(n=2, small=True)),
      Case('diffusion-2', diffusion, dict(n=2), tier='thorough', budget=900)],
    pyx=['gnome.cy_gnome.cy_mover', 'gnome.cy_gnome.cy_random_mover'])
