"""C28: the running average of a wind"""
import datetime as dt

from symex.case import Case, Property
from props.lib import BASE

INFO = {
 'functions': ['RunningAverage.__init__', 'RunningAverage.get_timeseries', 'RunningAverage.get_value',
               'RunningAverage.prepare_for_model_run', 'RunningAverage.prepare_for_model_step',
               'RunningAverage.create_running_average_timeseries', 'CyTimeseries.create_running_average (Cython)',
               'OSSMTimeValue_c::CalculateRunningAverage, GetTimeValue, GetInterpolatedComponent (C++)'],
 'bounds': 'winds of one to four entries, half an hour to days apart, along one axis with any speed up to 30 m/s '
           'per entry, the first in either sense; averages over one to three past hours (thorough: five); model times before, at, inside and '
           'at the end of the series; series of up to two days and a longer one; with and without extrapolation of '
           'the wind; any time in question within the series',
 'outside': 'winds that turn by other than half a circle between entries; model times after the end of the series',
 'stubs': ['C++ handles: fresh memory blocks with their size', 'gridded: alignment helpers of the stand-in package'],
 'assumptions': ['machine floats as reals'],
}
AXES = {'x': (1.0, 0.0), 'y': (0.0, 1.0), 'd': (0.6, -0.8)}
TOL = 1e-4


def h2(h):
    return BASE + dt.timedelta(hours=h)


def speed_at(cx, mins, vals, m):
    """the speed at a number of minutes: linear between entries, the nearest entry outside"""
    if m <= mins[0]:
        s = vals[0]
    elif m >= mins[-1]:
        s = vals[-1]
    else:
        i = max(k for k in range(len(mins)) if mins[k] <= m)
        w = (m - mins[i]) / (mins[i + 1] - mins[i])
        s = vals[i] * (1 - w) + vals[i + 1] * w
    return cx.mx(s, -s)


def average(cx, mins, vals, m, past):
    s = [speed_at(cx, mins, vals, m - 60 * j) for j in range(past + 1)]
    return sum([(s[j] + s[j + 1]) / 2 for j in range(past)], 0) / past


def wind_of(cx, mins, axis, vals, extra):
    from gnome.basic_types import datetime_value_2d
    from gnome.environment.wind import Wind
    a, b = AXES[axis]
    data = cx.array([(BASE + dt.timedelta(minutes=m), (v * a, v * b)) for m, v in zip(mins, vals)],
                    dtype=datetime_value_2d)
    return Wind(timeseries=data, units='m/s', coord_sys='uv', extrapolation_is_allowed=extra)


def speeds(cx, n):
    """the first of any sign, the others along the axis"""
    return [cx.real('v%d' % i, 0.0625 if i else -30, 30) for i in range(n)]


def check_series(cx, ra, mins, vals, past, start, only=None):
    """the average series from its start: equally spaced, and each the mean of the past hours"""
    ts = ra.timeseries
    step = min([60] + [b - a for a, b in zip(mins, mins[1:])])
    long = mins[-1] - mins[0] > 48 * 60
    first = start if long else mins[0]
    last = min(first + 48 * 60, mins[-1]) if long else mins[-1]
    n = int((last - first) // step) + 1
    cx.prove(len(ts) == n, 'an average per hour (or per entry, where those are closer)')
    for i in range(n):
        m = first + i * step
        cx.prove(ts['time'][i] == BASE + dt.timedelta(minutes=m), 'averages at equal steps from the start')
        if only is not None and i not in only:
            continue
        cx.prove(cx.close(ts['value'][i][0], average(cx, mins, vals, m, past), TOL),
                 'the mean speed of the past hours')
        cx.prove(cx.close(ts['value'][i][1], 0.0, 1e-9), 'an average is a speed, with no second component')


SHORT = {1: [(0,)], 2: [(0, 60), (0, 150)], 3: [(0, 60, 120), (0, 30, 180)], 4: [(0, 60, 120, 240)]}


def short(cx, n, past, axis):
    from gnome.environment.running_average import RunningAverage
    mins, extra, m = cx.choice('setup', [(x, e, m) for x in SHORT[n] for e, m in ((False, 30), (False, x[-1]), (True, 0))])
    vals = speeds(cx, n)
    w = wind_of(cx, mins, axis, vals, extra)
    ra = RunningAverage(wind=w, past_hours_to_average=past)
    check_series(cx, ra, mins, vals, past, 0)
    t = BASE + dt.timedelta(minutes=m)
    ra.prepare_for_model_run(t)
    ra.prepare_for_model_step(t)
    check_series(cx, ra, mins, vals, past, 0)
    back = w.get_wind_data(units='m/s', coord_sys='uv')
    for i in range(n):
        cx.prove(cx.close(back['value'][i][0], vals[i] * AXES[axis][0], 1e-6), 'averaging leaves the wind alone')
    cx.observe('a', ra.timeseries['value'][-1][0])


def at(cx, axis):
    """the average at any time in between"""
    from gnome.environment.running_average import RunningAverage
    mins, past = cx.choice('setup', [((0, 60), 1), ((0, 120), 2)])
    vals = [cx.real('v%d' % i, 0.0625, 30) for i in range(2)]
    ra = RunningAverage(wind=wind_of(cx, mins, axis, vals, cx.flag('extra')), past_hours_to_average=past)
    q = cx.int('q', 0, mins[-1] * 60)
    t = BASE + cx.secs(q)
    ra.prepare_for_model_run(BASE)
    ra.prepare_for_model_step(t)
    u, v = ra.get_value(t)
    s = ra.get_timeseries(t)
    cx.prove(cx.all([cx.close(v, 0.0, 1e-9), len(s) == 1]), 'one value, with no second component')
    cx.prove(cx.close(s['value'][0][0], u, 1e-9), 'the value is that of the series')
    av = [average(cx, mins, vals, 60 * k, past) for k in range(mins[-1] // 60 + 1)]
    for k in range(len(av) - 1):
        cx.prove(cx.implies(cx.all([q >= k * 3600, q <= (k + 1) * 3600]),
                            cx.close(u * 3600, av[k] * ((k + 1) * 3600 - q) + av[k + 1] * (q - k * 3600), 3600 * TOL)),
                 'linear between two averages')
    cx.observe('u', u)


def long(cx, past, axis, model):
    """more than two days of wind: averages for two days from the model time on"""
    from gnome.environment.running_average import RunningAverage
    mins = (0, 1800, 3600)
    vals = [cx.real('v%d' % i, 0.0625, 30) if i != 1 else 4.0 for i in range(3)]
    ra = RunningAverage(wind=wind_of(cx, mins, axis, vals, cx.flag('extra')), past_hours_to_average=past)
    check_series(cx, ra, mins, vals, past, 0, {0, 1, 29, 30, 31, 48})
    m1, m2 = model
    t = BASE + dt.timedelta(minutes=m1)
    ra.prepare_for_model_run(t)
    check_series(cx, ra, mins, vals, past, m1, {0, 1, 2, 10})
    t = BASE + dt.timedelta(minutes=m2)
    ra.prepare_for_model_step(t)
    end = min(m1 + 48 * 60, mins[-1])
    if m1 <= m2 <= end:
        check_series(cx, ra, mins, vals, past, m1, {0})
    else:
        check_series(cx, ra, mins, vals, past, m2, {0, 1})
    k = ra.get_value(t)
    cx.prove(cx.close(k[0], average(cx, mins, vals, m2, past), TOL), 'the average now')
    cx.observe('u', k[0])


def change(cx, axis):
    """a changed wind, or number of hours, shows from the next run on"""
    from gnome.basic_types import datetime_value_2d
    from gnome.environment.running_average import RunningAverage
    mins = (0, 60, 120)
    vals = speeds(cx, 3)
    w = wind_of(cx, (0, 60), axis, [3.0, 5.0], cx.flag('extra'))
    ra = RunningAverage(wind=w, past_hours_to_average=cx.choice('was', [1, 4]))
    ra.prepare_for_model_run(BASE)
    a, b = AXES[axis]
    w.set_wind_data(cx.array([(BASE + dt.timedelta(minutes=m), (v * a, v * b)) for m, v in zip(mins, vals)],
                             dtype=datetime_value_2d), 'm/s', 'uv')
    past = cx.choice('past', [1, 2])
    ra.past_hours_to_average = past
    cx.prove(ra.past_hours_to_average == past, 'the number of hours reads back')
    ra.prepare_for_model_run(BASE)
    check_series(cx, ra, mins, vals, past, 0)
    cx.observe('a', ra.timeseries['value'][-1][0])


def entries(cx):
    """made from wind entries directly: components in m/s"""
    from gnome.basic_types import datetime_value_2d
    from gnome.environment.running_average import RunningAverage
    mins, past = (0, 60, 90), cx.choice('past', [1, 3])
    axis = cx.choice('axis', sorted(AXES))
    vals = speeds(cx, 3)
    a, b = AXES[axis]
    data = cx.array([(BASE + dt.timedelta(minutes=m), (v * a, v * b)) for m, v in zip(mins, vals)],
                    dtype=datetime_value_2d)
    ra = RunningAverage(timeseries=data, past_hours_to_average=past)
    check_series(cx, ra, mins, vals, past, 0)
    ra.prepare_for_model_run(BASE)
    check_series(cx, ra, mins, vals, past, 0)
    cx.observe('a', ra.timeseries['value'][-1][0])


def nothing(cx):
    from gnome.environment.running_average import RunningAverage
    from gnome.exceptions import ReferencedObjectNotSet
    ra = RunningAverage(past_hours_to_average=cx.choice('past', [1, 3]))
    q = cx.int('q', -10 ** 6, 10 ** 6)
    u, v = ra.get_value(BASE + cx.secs(q))
    cx.prove(cx.all([u == 0.0, v == 0.0]), 'without a wind the average is nothing')
    try:
        ra.prepare_for_model_run(BASE)
    except ReferencedObjectNotSet:
        return
    cx.prove(False, 'a run without a wind is refused')


PROP = Property('C28', [
    Case('short-%d-%d-%s' % (n, p, a), short, dict(n=n, past=p, axis=a))
    for n, p, a in ((1, 3, 'd'), (2, 1, 'x'), (2, 3, 'y'), (3, 2, 'x'), (3, 3, 'x'), (4, 1, 'y'))
] + [
    Case('short-4-%d' % p, short, dict(n=4, past=p, axis='x'), tier='thorough', budget=900) for p in (3, 5)
] + [
    Case('at', at, dict(axis='x')), Case('change', change, dict(axis='x')), Case('entries', entries), Case('nothing', nothing),
] + [
    Case('long-%d-%d' % m, long, dict(past=2, axis='x', model=m)) for m in ((0, 60), (1200, 1800), (2400, 600), (-120, 300))
], pyx=['gnome.cy_gnome.cy_ossm_time'], encoders=('cyenc',))
