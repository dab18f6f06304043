"""C14: point winds and the time series under them"""
import datetime as dt

from symex.case import Case, Property
from props.lib import BASE

INFO = {
 'functions': ['Wind.__init__', 'Wind.at', 'Wind.get_wind_data', 'Wind.set_wind_data', 'Wind.get_value',
               'Wind.new_set_timeseries', 'Timeseries.get_timeseries', 'CyTimeseries.get_time_value (Cython)',
               'OSSMTimeValue_c::GetTimeValue, GetInterpolatedComponent, ClampToTimeRange, CheckStartTime (C++)',
               'constant_wind', 'wind_from_values', 'to_time_value_pair', 'to_datetime_value_2d'],
 'bounds': 'series of one to four (thorough: nine) entries an hour to a week apart; any velocity up to 30 m/s per '
           'component (C++ level, components), any speed up to 60 in seven directions (winds), in m/s, knots, mph or '
           'cm/s; any time from half a day before to half a day after the series; with and without extrapolation; '
           'time zone offsets in half hours',
 'outside': 'reading of files; differences of 1e-5 m/s between neighbouring entries (the series treats them as equal)',
 'stubs': ['C++ handles: fresh memory blocks with their size', 'gridded: alignment helpers of the stand-in package'],
 'assumptions': ['machine floats as reals'],
}
HOURS = {1: [(0,)], 2: [(0, 1), (0, 168)], 3: [(0, 1, 2), (0, 3, 4)], 4: [(0, 1, 3, 4)],
         6: [(0, 1, 2, 3, 6, 8)], 9: [(0, 1, 2, 3, 4, 5, 6, 7, 9)]}
TOL = 2.1e-5


def when(cx, hours, n=None):
    """a time in question: anywhere around the series"""
    return cx.int('q', -43200, hours[-1] * 3600 + 43200)


def seconds(hours):
    return [h * 3600 for h in hours]


def check_value(cx, got, vals, secs, q, label):
    """got: linear between the neighbours of q, constant outside"""
    n = len(vals)
    if n == 1:
        cx.prove(cx.close(got, vals[0], 1e-6), label + ': a single value holds at all times')
        return
    for i in range(n - 1):
        lo, hi = secs[i], secs[i + 1]
        ins = cx.all([q >= lo, q <= hi])
        cx.prove(cx.implies(ins, cx.close(got * (hi - lo), vals[i] * (hi - q) + vals[i + 1] * (q - lo),
                                          TOL * (hi - lo))), label + ': linear between two entries')
        cx.prove(cx.implies(q == lo, cx.close(got, vals[i], TOL)), label + ': an entry is its value')
    cx.prove(cx.implies(q >= secs[-1], cx.close(got, vals[-1], TOL)), label + ': the last value from the end on')
    cx.prove(cx.implies(q <= secs[0], cx.close(got, vals[0], TOL)), label + ': the first value before the start')


def series(cx, n, extra):
    """the time series object itself, any components"""
    from gnome import basic_types
    from gnome.cy_gnome.cy_ossm_time import CyTimeseries
    from gnome.utilities.time_utils import date_to_sec
    hours = cx.choice('hours', HOURS[n])
    uv = [[cx.real('v%d%d' % (i, j), -30, 30) for j in range(2)] for i in range(n)]
    s = [int(date_to_sec(BASE + dt.timedelta(hours=h))) for h in hours]
    a = cx.array([(s[i], tuple(uv[i])) for i in range(n)], dtype=basic_types.time_value_pair)
    c = CyTimeseries(timeseries=a)
    c.extrapolation_is_allowed = extra
    q = when(cx, hours)
    secs = seconds(hours)
    inside = n == 1 or bool(cx.all([q >= secs[0], q <= secs[-1]]))
    cx.prove(c.get_num_values() == n, 'number of entries')
    cx.prove(cx.all([c.get_start_time() == s[0], c.get_end_time() == s[-1]]), 'start and end of the series')
    try:
        r, err = c.get_time_value(s[0] + q)
    except IndexError:
        cx.prove(not extra and not inside, 'refused only outside of the series without extrapolation')
        return
    cx.prove(extra or inside, 'no value outside of the series without extrapolation')
    for j, k in enumerate('uv'):
        cx.observe(k, r[k][0])
        check_value(cx, r[k][0], [x[j] for x in uv], secs, q, 'series')
    back = c.timeseries
    for i in range(n):
        cx.prove(cx.all([back['time'][i] == s[i], back['value']['u'][i] == uv[i][0],
                         back['value']['v'][i] == uv[i][1]]), 'the series reads back as set')
        cx.prove(cx.all([a['time'][i] == s[i], a['value']['u'][i] == uv[i][0],
                         a['value']['v'][i] == uv[i][1]]), 'the array passed in is left alone')


UNITS = [('m/s', 1.0), ('knots', 0.514444), ('mph', 0.44704), ('cm/s', 0.01)]
DIRS = [0.0, 30.0, 90.0, 135.0, 200.0, 270.0, 341.5]


def rows(cx, hours, vals, with_array=True):
    from gnome.basic_types import datetime_value_2d
    L = [(BASE + dt.timedelta(hours=h), tuple(v)) for h, v in zip(hours, vals)]
    return cx.array(L, dtype=datetime_value_2d) if with_array else L


def factor(u):
    import nucos
    f = nucos.convert('Velocity', u, 'm/s', 1.0)
    assert abs(f - dict(UNITS)[u]) < 1e-5
    return f


def unit(cx):
    u = cx.choice('units', [u for u, f in UNITS])
    return u, factor(u)


def wind_at(cx, n, coord, how):
    """a wind from data in any units: its velocity at any time, and what was entered reads back"""
    import math
    from gnome.environment.wind import Wind
    hours = HOURS[n][0]
    un, f, pts, extra, ex = cx.choice('config', [
        (u, factor(u), pt, a, b) for u, pt, a, b in (
            ('m/s', None, False, None), ('knots', 2, True, None), ('mph', 2, False, True), ('cm/s', 1, True, False))])
    if coord == 'uv':
        vals = [[cx.real('v%d%d' % (i, j), -60, 60) for j in range(2)] for i in range(n)]
        uv = [[x * f for x in v] for v in vals]
    else:
        vals, uv = [], []
        for i in range(n):
            r = cx.real('r%d' % i, 0, 60)
            d = cx.choice('d%d' % i, DIRS if n == 1 else DIRS[2 * i:2 * i + 3])
            vals.append([r, d])
            uv.append([-r * f * math.sin(math.radians(d)), -r * f * math.cos(math.radians(d))])
    data = rows(cx, hours, vals)
    if how == 'init':
        w = Wind(timeseries=data, units=un, coord_sys=coord)
    elif how == 'set':
        w = Wind(timeseries=rows(cx, [5], [[1.0, 20.0]]), units='m/s')
        w.set_wind_data(data, un, coord)
    else:
        w = Wind(units='m/s')
        w.units = un
        w.timeseries = data
    for i in range(n):
        for j in range(2):
            cx.prove(data['value'][i][j] == vals[i][j], 'the data passed in is left alone')
    w.extrapolation_is_allowed = extra
    secs = seconds(hours)
    got = w.get_wind_data(units=un, coord_sys='uv')
    for i in range(n):
        for j in range(2):
            cx.prove(cx.close(got['value'][i][j], uv[i][j] / f, 1e-6), 'reads back as entered, components')
    if coord == 'r-theta':
        ts = w.timeseries
        for i in range(n):
            cx.prove(cx.all([cx.close(ts['value'][i][0], vals[i][0], 1e-6), cx.close(ts['value'][i][1], vals[i][1], 1e-6)]),
                     'the time series is what was entered')
    q = when(cx, hours)
    t = BASE + cx.secs(q)
    inside = n == 1 or bool(cx.all([q >= secs[0], q <= secs[-1]]))
    eff = extra if ex is None else ex
    try:
        r = w.at(None if pts is None else cx.array([[0.0, 10.0, 0.0]] * pts), t, extrapolate=ex)
    except ValueError:
        cx.prove(not eff and not inside, 'refused only outside of the series without extrapolation')
        cx.prove(w.extrapolation_is_allowed == extra, 'asking does not change the extrapolation')
        return
    cx.prove(eff or inside, 'no value outside of the series without extrapolation')
    cx.prove(w.extrapolation_is_allowed == extra, 'asking does not change the extrapolation')
    cx.prove(len(r) == (pts or 1), 'a value per point')
    for p in range(len(r)):
        for j in range(2):
            check_value(cx, r[p][j], [x[j] for x in uv], secs, q, 'wind')
    cx.observe('u', r[0][0])


def wind_polar(cx, n):
    """speed and direction at the entries"""
    from gnome.environment.wind import wind_from_values
    hours = HOURS[n][0]
    un, f = unit(cx)
    vals = [[cx.real('r%d' % i, 0.0625, 60), cx.choice('d%d' % i, DIRS)] for i in range(n)]
    w = wind_from_values([(BASE + dt.timedelta(hours=h), v[0], v[1]) for h, v in zip(hours, vals)], units=un)
    for i in range(n):
        t = BASE + dt.timedelta(hours=hours[i])
        g = w.get_wind_data(t, units=un)
        cx.prove(cx.close(g['value'][0][0], vals[i][0], 1e-6, 1e-6), 'the speed at an entry')
        cx.prove(cx.close(g['value'][0][1], vals[i][1], 1e-6), 'the direction at an entry')
        s, d = w.get_value(t)
        cx.prove(cx.all([cx.close(s, vals[i][0] * f, 1e-6, 1e-6), cx.close(d, vals[i][1], 1e-6)]),
                 'get_value in m/s')
        a = w.at(cx.array([[1.0, 2.0, 0.0]]), t, coord_sys='r-theta')
        cx.prove(cx.all([cx.close(a[0][0], vals[i][0] * f, 1e-6, 1e-6), cx.close(a[0][1], vals[i][1], 1e-6)]),
                 'at in speed and direction')
        b = w.at(cx.array([[1.0, 2.0, 0.0]]), t, coord_sys='uv')
        for k in 'uv':
            c = w.at(cx.array([[1.0, 2.0, 0.0]]), t, coord_sys=k)
            cx.prove(cx.close(float_of(cx, c), b[0]['uv'.index(k)], 1e-9), 'a single component')
    cx.prove(cx.all([w.data_start == BASE + dt.timedelta(hours=hours[0]),
                     w.data_stop == BASE + dt.timedelta(hours=hours[-1])]), 'start and end of the data')


def float_of(cx, c):
    return c.reshape(-1)[0] if hasattr(c, 'reshape') else c


def constant(cx):
    from gnome.environment.wind import constant_wind
    import math
    un, f = unit(cx)
    r, d = cx.real('r', 0, 60), cx.choice('d', DIRS)
    w = constant_wind(r, d, un)
    q = cx.int('q', -10 ** 6, 10 ** 6)
    a = w.at(cx.array([[1.0, 2.0, 0.0]]), BASE + cx.secs(q))
    cx.prove(cx.close(a[0][0], -r * f * math.sin(math.radians(d)), 1e-6), 'a constant wind is constant')
    cx.prove(cx.close(a[0][1], -r * f * math.cos(math.radians(d)), 1e-6), 'a constant wind is constant')
    cx.observe('u', a[0][0])


def zones(cx):
    """a change of the time zone shifts the series"""
    from gnome.environment.wind import Wind
    from gnome.utilities.time_utils import TZOffset
    un, f = unit(cx)
    coord = cx.choice('coord', ['uv', 'r-theta'])
    hours = (0, 2)
    vals = [[cx.real('v%d' % i, 0.0625, 60), [0.0, 90.0][i]] for i in range(2)]
    h0 = cx.choice('h0', [None, -8, 5.5])
    h1 = cx.choice('h1', [None, 0, 3.5])
    if coord == 'uv':
        raw = [[0.0, -vals[0][0]], [-vals[1][0], 0.0]]
    else:
        raw = vals
    w = Wind(timeseries=rows(cx, hours, raw), units=un, coord_sys=coord, timezone_offset=TZOffset(h0, 'a'))
    w.timezone_offset = TZOffset(h1, 'b')
    shift = int((h1 - h0) * 3600) if h0 is not None and h1 is not None else 0
    d = dt.timedelta(seconds=shift)
    cx.prove(cx.all([w.data_start == BASE + d, w.data_stop == BASE + d + dt.timedelta(hours=2)]),
             'the series is shifted by the difference of the offsets')
    g = w.get_wind_data(units=un, coord_sys='uv')
    want = [[0.0, -vals[0][0]], [-vals[1][0], 0.0]]
    for i in range(2):
        cx.prove(cx.all([cx.close(g['value'][i][j], want[i][j], 1e-6) for j in range(2)]),
                 'a shift changes no values')


def disorder(cx, as_list):
    """entries that are not ascending are refused"""
    from gnome.environment.wind import Wind
    from gnome.utilities.timeseries import TimeseriesError
    hs = [cx.choice('h%d' % i, [0, 1, 2]) for i in range(3)]
    data = rows(cx, hs, [[cx.real('r', 0, 60), 10.0]] * 3, not as_list)
    ok = hs[0] < hs[1] < hs[2]
    try:
        Wind(timeseries=data, units='m/s')
    except TimeseriesError:
        cx.prove(not ok, 'an ascending series is accepted')
        return
    cx.prove(ok, 'a series out of order is refused')


PROP = Property('C14', [
    Case('series-%d-%s' % (n, e), series, dict(n=n, extra=e)) for n in (1, 2, 3, 6) for e in (True, False)
] + [
    Case('wind-%d-%s-%s' % (n, c, h), wind_at, dict(n=n, coord=c, how=h))
    for n, c, h in ((1, 'r-theta', 'init'), (2, 'r-theta', 'init'), (2, 'uv', 'init'), (2, 'uv', 'set'),
                    (2, 'r-theta', 'set'), (1, 'r-theta', 'assign'))
] + [
    Case('wind-3-uv', wind_at, dict(n=3, coord='uv', how='init'), tier='thorough', budget=900),
    Case('polar', wind_polar, dict(n=1)), Case('constant', constant), Case('zones', zones),
    Case('order-array', disorder, dict(as_list=False)), Case('order-list', disorder, dict(as_list=True)),
    Case('polar-2', wind_polar, dict(n=2), tier='thorough', budget=900),
    Case('series-9', series, dict(n=9, extra=True), tier='thorough', budget=900),
], pyx=['gnome.cy_gnome.cy_ossm_time'])
