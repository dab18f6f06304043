"""C25: diffusion - how far the random movers can throw an element"""
import datetime as dt

from symex.case import Case, Property
from props.lib import make_sc, set_array, BASE

M = 111120.00024
RAND_MAX = 2147483647

INFO = {
 'functions': ['RandomMover.get_move', 'RandomMover3D.get_move', 'CyRandomMover, CyRandomMover3D (Cython)',
               'Random_c::get_move, GetMove, PrepareForModelStep; RandomVertical_c::get_move, GetMove; GetRandomFloat, '
               'GetRandomVectorInUnitCircle, LongToLatRatio3 (C++, LLVM IR)'],
 'bounds': 'one or two elements in any status, any latitude within 80 degrees, depths to 60 m, any diffusion '
           'coefficients, steps of one to 7200 s forward and backward, certain and uncertain elements, one or two steps; '
           'every value of rand(); at most two rejected pairs of draws in the unit circle',
 'outside': 'more than two rejected draws; statistics of the moves (only their range); depths near the 5000 m bottom',
 'stubs': ['rand(): any value from 0 to RAND_MAX, as a real number'],
 'assumptions': ['machine floats as reals; longitudes within 1e-4 of the step (the code uses single precision there)'],
}
STATUS = ['in_water', 'on_land', 'off_maps', 'to_be_removed', 'on_tideflat']


def setup(cx, n, depth, uncertain=False, statuses=STATUS, lats=None):
    from gnome.basic_types import oil_status
    sc = make_sc(cx, n, None, uncertain=uncertain)
    names = [cx.choice('status%d' % i, statuses) for i in range(n)]
    set_array(sc, 'status_codes', [getattr(oil_status, s) for s in names])
    lat = [cx.choice('lat%d' % i, lats) if lats else cx.int('lat%d' % i, -80 * 10 ** 6, 80 * 10 ** 6) / 10 ** 6
           for i in range(n)]
    z = [cx.real('z%d' % i, 0, depth) if depth else 0.0 for i in range(n)]
    set_array(sc, 'positions', [[10.0, lat[i], z[i]] for i in range(n)])
    return sc, [s == 'in_water' for s in names], lat, z


def unit(cx, d):
    return 2 * d / RAND_MAX - 1


def is_draw(cx, x, scale, draws):
    """x is scale times one of the draws, each uniform in -1 to 1"""
    e = scale * 1e-4 + 1e-9
    return cx.any([cx.all([x - scale * unit(cx, d) <= e, scale * unit(cx, d) - x <= e]) for d in draws])


def random2d(cx, n=1, uncertain=False, first=True):
    from gnome.movers import RandomMover
    sc, wet, lat, z = setup(cx, n, 50, uncertain, STATUS if n == 1 and not first else STATUS[:2],
                            [0.0, -60.5] if first else None)
    if first:
        D, dts, f = cx.choice('D', [(0.0, 900, 2.0), (10.0 ** 5, 900, 3.0), (512.0, -1800, 1.0)])
    else:
        dts = cx.int('dt', 1, 7200) * (1 if cx.flag('forward') else -1)
        D = cx.real('D', 0, 10 ** 7)
        f = cx.choice('f', [1.0, 2.5])
    m = RandomMover(diffusion_coef=D, uncertain_factor=f)
    cx.limit_draws(4 * n + 2)
    m.prepare_for_model_run()
    if not first:
        m.prepare_for_model_step(sc, 900, BASE)
        m.model_step_is_done(sc)
    m.prepare_for_model_step(sc, dts, BASE)
    before = len(cx.crand_used())
    delta = m.get_move(sc, dts, BASE)
    draws = cx.crand_used()[before:]
    k = 6 * D / 10000 * abs(dts) * (f if uncertain else 1)
    s = cx.fn('sqrt', k) / M
    for i in range(n):
        dlon, dlat = delta[i][0], delta[i][1]
        cx.prove(delta[i][2] == 0, 'no vertical move')
        moves = wet[i] and bool(z[i] <= 0)
        if not moves:
            cx.prove(cx.all([dlon == 0, dlat == 0]), 'only floating elements in the water move')
            continue
        c = cx.cosd(lat[i])
        cx.prove(cx.all([dlat <= s * 1.00001, dlat >= -s * 1.00001]), 'north within sqrt(6 D t)')
        cx.prove(cx.all([dlon * c <= s * 1.0001, dlon * c >= -s * 1.0001]), 'east within sqrt(6 D t)')
        cx.prove(is_draw(cx, dlat * M, s * M, draws), 'north is a uniform draw of that range')
        cx.prove(is_draw(cx, dlon * c * M, s * M, draws), 'east is a uniform draw of that range')
        if first:
            cx.prove((dlon * c) * (dlon * c) + dlat * dlat <= s * s * 1.001, 'the first step stays in the circle')
        cx.observe('lat%d' % i, dlat)
    cx.prove(m.active, 'active')


def random3d(cx, n=1, uncertain=False):
    import math
    from gnome.movers import RandomMover3D
    sc, wet, lat, z = setup(cx, n, 60, uncertain, STATUS[:2], [0.0, 60.0] if n == 1 else [0.0])
    # (va below is per cm2/s; the ranges are a = sqrt(6 va dt) and b = sqrt(6 vb dt), in m)
    va, vb, mld, dts = cx.choice('config', [(5.0, 0.11, 10.0, 900), (2.0 ** 16, 2.0 ** 14, 10.0, 3600), (5.0, 0.0, 25.0, 900),
                                            (0.0, 0.11, 10.0, 900), (64.0, 16.0, 0.0, 900), (5.0, 0.11, 10.0, -900)])
    ha, hb = cx.choice('h', [(10.0 ** 5, 126.0), (0.0, 4096.0)])
    stay = cx.flag('surface_is_allowed')
    m = RandomMover3D(vertical_diffusion_coef_above_ml=va, vertical_diffusion_coef_below_ml=vb,
                      horizontal_diffusion_coef_above_ml=ha, horizontal_diffusion_coef_below_ml=hb,
                      mixed_layer_depth=mld, surface_is_allowed=stay)
    m.prepare_for_model_run()
    m.prepare_for_model_step(sc, dts, BASE)
    before = len(cx.crand_used())
    delta = m.get_move(sc, dts, BASE)
    draws = cx.crand_used()[before:]
    for i in range(n):
        dlon, dlat, dz = delta[i][0], delta[i][1], delta[i][2]
        moves = wet[i] and (not stay or bool(z[i] > 0))
        if not moves:
            cx.prove(cx.all([dlon == 0, dlat == 0, dz == 0]),
                     'nothing outside of the water moves, nor at the surface if that is allowed')
            continue
        above = bool(z[i] <= mld)
        s = math.sqrt(6 * (ha if above else hb) / 10000 * abs(dts))
        c = cx.cosd(lat[i])
        cx.prove(is_draw(cx, dlat * M, s, draws), 'north is a uniform draw of the range of the layer')
        cx.prove(is_draw(cx, dlon * c * M, s, draws), 'east is a uniform draw of the range of the layer')
        new = z[i] + dz
        cx.prove(new >= 0, 'no element leaves the water at the top')
        a = math.sqrt(6 * va / 10000 * abs(dts)) if above else 0.0
        b = math.sqrt(6 * vb / 10000 * abs(dts)) if not (above and va == 0) else 0.0
        lim = (a + b) * 1.0001 + 1e-5
        cx.prove(cx.all([dz <= lim, dz >= -lim]), 'vertical move within the sum of the ranges')
        if above and va > 0:
            cx.prove(cx.any([new <= mld + b * 1.0001 + 1e-5, new <= (a + b) * 1.0001 + 1e-5 - z[i]]),
                     'the base of the mixed layer reflects')
        if above and va > 0 and a < 1 and b == 0 and bool(z[i] > a) and bool(z[i] < mld - a):
            cx.prove(is_draw(cx, dz, a, draws), 'vertical move is a uniform draw')
        if not above and vb > 0 and bool(z[i] > b):
            cx.prove(is_draw(cx, dz, b, draws), 'vertical move below the mixed layer is a uniform draw')
        cx.observe('z%d' % i, dz)


PROP = Property('C25', [
    Case('random3d-1', random3d), Case('random3d-1-uncertain', random3d, dict(uncertain=True)),
    Case('random3d-2', random3d, dict(n=2), tier='thorough', budget=900),
] + [
    Case('random-%d%s%s' % (n, '-uncertain' if u else '', '-first' if f else ''), random2d, dict(n=n, uncertain=u, first=f))
    for n in (1, 2) for u in (False, True) for f in (False, True) if n == 1 or not f
], pyx=['gnome.cy_gnome.cy_mover', 'gnome.cy_gnome.cy_random_mover', 'gnome.cy_gnome.cy_random_mover_3d'])
