"""C26: windage and drift - what wind does to floating elements"""
import datetime as dt

from symex.case import Case, Property
from props.lib import make_sc, set_array, BASE

M = 111120.00024

INFO = {
 'functions': ['PointWindMover.prepare_for_model_step, get_move', 'random_with_persistance', 'InitWindages.initialize',
               'Substance.windage_range, windage_persist', 'Wind (timeseries)', 'CyWindMover, CyOSSMTime (Cython)',
               'WindMover_c::PrepareForModelStep, GetTimeValue, get_move, GetMove; OSSMTimeValue_c::GetTimeValue; '
               'LongToLatRatio3 (C++, LLVM IR)'],
 'bounds': 'one or two elements of any status, any windage range within 0 to 1, persistence from a set of seven (below, at '
           'and above the step, infinite), steps from a set of six, forward and backward; winds of one or two records with '
           'any speeds to 50 m/s from five directions, at any time; any latitude within 80 degrees',
 'outside': 'uncertainty of the wind once its delay is over; gridded winds',
 'stubs': ['np.random.uniform: any values in its range'],
 'assumptions': ['machine floats as reals; longitudes within 1e-4 of the move (the code uses single precision there)'],
}
STATUS = ['in_water', 'on_land', 'off_maps', 'to_be_removed', 'on_tideflat']
# towards: (u, v) of a wind of speed one that blows from that direction
FROM = [(0.0, (0, -1)), (90.0, (-1, 0)), (180.0, (0, 1)), (270.0, (1, 0)), (225.0, (0.5 ** 0.5, 0.5 ** 0.5))]


def near(cx, a, b, rel, tol):
    return cx.close(a, b, tol, rel)



def draw_of(cx, w, lo, hi, draws):
    """w is a draw, uniform from lo to hi"""
    e = 1e-9
    return cx.any([cx.all([(w - lo) * (b - a) - (x - a) * (hi - lo) <= e * (b - a),
                           (x - a) * (hi - lo) - (w - lo) * (b - a) <= e * (b - a)]) for x, a, b in draws])


def persistence(cx, n=1, kind='point'):
    from gnome.basic_types import oil_status
    from gnome.movers import PointWindMover
    from gnome.environment.wind import constant_wind
    sc = make_sc(cx, n, None, ['windages', 'windage_range', 'windage_persist'], uncertain=False)
    lo = [cx.real('low%d' % i, 0, 1) for i in range(n)]
    hi = [lo[i] + cx.real('range%d' % i, 0, 1) for i in range(n)]
    w0 = [cx.real('windage%d' % i, 0, 1) for i in range(n)]
    ps = [cx.choice('persist%d' % i, [900, -1, 450, 225, 3600, 901, 1] if n == 1 else [900, -1, 225]) for i in range(n)]
    set_array(sc, 'windage_range', [[lo[i], hi[i]] for i in range(n)])
    set_array(sc, 'windages', w0)
    set_array(sc, 'windage_persist', ps)
    step = cx.choice('dt', [900, 3600, 225, -900, -400, 60] if n == 1 else [900, 3600, -400])
    m = PointWindMover(constant_wind(5, 90))
    on = cx.flag('on')
    m.on = on
    m.prepare_for_model_run()
    before = len(cx.draw_ranges)
    m.prepare_for_model_step(sc, step, BASE)
    draws = cx.draw_ranges[before:]
    for i in range(n):
        w = sc['windages'][i]
        if not on:
            cx.prove(w == w0[i], 'no windage changes while the mover is off')
            continue
        if 0 < ps[i] <= 900:
            f = (float(ps[i]) / abs(step)) ** 0.5
            mid, half = (lo[i] + hi[i]) / 2, (hi[i] - lo[i]) / 2 * f
            cx.prove(cx.all([w >= mid - half - 1e-9, w <= mid + half + 1e-9]),
                     'a new windage lies in the range, widened or narrowed by sqrt(persistence / step)')
            cx.prove(draw_of(cx, w, mid - half, mid + half, draws), 'a new windage is drawn from all of that range')
        elif bool(lo[0] == hi[0]) and (n == 1 or bool(lo[1] == hi[1])):
            cx.prove(cx.any([w == w0[i], w == lo[i]]), 'a range of one value gives that value')
        else:
            cx.prove(w == w0[i], 'infinite persistence keeps the windage')
        cx.prove(cx.all([sc['windage_range'][i][0] == lo[i], near(cx, sc['windage_range'][i][1], hi[i], 1e-12, 1e-12)]),
                 'the range stays')
        cx.prove(sc['windage_persist'][i] == ps[i], 'the persistence stays')
        cx.observe('w%d' % i, w)


def released(cx, n=2):
    """the windages of a release, from the range of its substance"""
    from gnome.spills.substance import NonWeatheringSubstance
    from gnome.spill_container import SpillContainer
    from gnome.spills.spill import Spill
    from gnome.spills.release import PointLineRelease
    lo = cx.real('low', 0, 1)
    hi = lo + cx.real('range', 0, 1)
    ps = cx.choice('persist', [900, -1, float('inf')])
    sub = NonWeatheringSubstance(windage_range=(lo, hi), windage_persist=ps)
    sc = SpillContainer()
    ats = {}
    for i in range(2):
        rel = PointLineRelease(release_time=BASE + dt.timedelta(seconds=1000 * i), start_position=(0., 0., 0.), num_elements=n)
        sp = Spill(release=rel, substance=sub, amount=10, units='kg')
        sc.spills += sp
        ats.update(sp.all_array_types)
    sc.prepare_for_model_run(ats, 900)
    first = []
    for k in range(2):
        before = len(cx.draw_ranges)
        sc.release_elements(BASE + dt.timedelta(seconds=900 * k), BASE + dt.timedelta(seconds=900 * (k + 1)),
                            environment={'water': None})
        draws = cx.draw_ranges[before:]
        cx.prove(len(sc['windages']) == n * (k + 1), 'one windage per element')
        for i in range(n * (k + 1)):
            w = sc['windages'][i]
            if i < n * k:
                cx.prove(w == first[i], 'a later release leaves the windages of the first')
                continue
            cx.prove(cx.all([w >= lo - 1e-12, w <= hi + 1e-12]), 'windage from the range of the substance')
            cx.prove(draw_of(cx, w, lo, hi, draws), 'drawn from all of the range')
            cx.prove(sc['windage_persist'][i] == (-1 if ps != 900 else 900), 'persistence of the substance')
            cx.prove(cx.all([sc['windage_range'][i][0] == lo, near(cx, sc['windage_range'][i][1], hi, 1e-12, 1e-12)]),
                     'range of the substance')
        first = [sc['windages'][i] for i in range(n * (k + 1))]


def drift(cx, n=1, records=1, uncertain=False):
    from gnome import basic_types
    from gnome.basic_types import oil_status
    from gnome.movers import PointWindMover
    from gnome.environment.wind import Wind
    sc = make_sc(cx, n, None, ['windages', 'windage_range', 'windage_persist'], uncertain=uncertain)
    names = [cx.choice('status%d' % i, STATUS if n == 1 else STATUS[:2]) for i in range(n)]
    set_array(sc, 'status_codes', [getattr(oil_status, s) for s in names])
    lat = [cx.int('lat%d' % i, -80 * 10 ** 6, 80 * 10 ** 6) / 10 ** 6 for i in range(n)]
    z = [cx.real('z%d' % i, 0, 20) for i in range(n)]
    w = [cx.real('windage%d' % i, 0, 0.1) for i in range(n)]
    set_array(sc, 'positions', [[10.0, lat[i], z[i]] for i in range(n)])
    set_array(sc, 'windages', w)
    set_array(sc, 'windage_range', [[0.0, 0.1]] * n)
    set_array(sc, 'windage_persist', [-1] * n)
    step = cx.choice('dt', [900, -900, 3600, 1])
    # two records, one hour apart
    sp = [cx.real('speed%d' % k, 0, 50) for k in range(records)]
    dirs = [cx.choice('from%d' % k, FROM if records == 1 and n == 1 else FROM[1:4:2] if k else FROM[::2][:2])
            for k in range(records)]
    wind = Wind(timeseries=cx.array([(BASE + dt.timedelta(seconds=3600 * k), (sp[k], dirs[k][0])) for k in range(records)],
                                    dtype=basic_types.datetime_value_2d), units='m/s',
                extrapolation_is_allowed=True)
    m = PointWindMover(wind, uncertain_time_delay=1000)
    when = cx.time('t', 0, 3600) if records > 1 else cx.time('t', -7200, 7200)
    t = (when - BASE).total_seconds()
    m.prepare_for_model_run()
    m.prepare_for_model_step(sc, step, when)
    delta = m.get_move(sc, step, when)
    for i in range(n):
        dlon, dlat = delta[i][0], delta[i][1]
        cx.prove(delta[i][2] == 0, 'wind moves nothing up or down')
        if names[i] != 'in_water' or bool(z[i] > 0):
            cx.prove(cx.all([dlon == 0, dlat == 0]), 'only what floats in the water drifts')
            continue
        cx.prove(sc['windages'][i] == w[i], 'windage unchanged')
        if records == 1:
            u, v = sp[0] * dirs[0][1][0], sp[0] * dirs[0][1][1]
        else:
            a, b = (sp[k] * dirs[k][1][0] for k in range(2)), (sp[k] * dirs[k][1][1] for k in range(2))
            (u0, u1), (v0, v1) = a, b
            f = t / 3600
            u, v = u0 + f * (u1 - u0), v0 + f * (v1 - v0)
        e = abs(step) * 1e-5
        cx.prove(near(cx, dlat * M, w[i] * v * step, 1e-5, e), 'north: windage times wind times time')
        cx.prove(near(cx, dlon * cx.cosd(lat[i]) * M, w[i] * u * step, 1e-4, e), 'east: windage times wind times time')
        cx.observe('lat%d' % i, dlat)


PROP = Property('C26', [
    Case('persist-1', persistence), Case('persist-2', persistence, dict(n=2)),
    Case('released-1', released, dict(n=1)), Case('released-2', released),
    Case('drift-1', drift), Case('drift-1-uncertain', drift, dict(uncertain=True)), Case('drift-2', drift, dict(n=2)),
    Case('drift-records', drift, dict(records=2)),
    Case('drift-records-2', drift, dict(records=2, n=2), tier='thorough', budget=900),
], pyx=['gnome.cy_gnome.cy_mover', 'gnome.cy_gnome.cy_wind_mover', 'gnome.cy_gnome.cy_ossm_time'])
