"""C10 movers: what moves, when, and how far"""
import datetime as dt

import numpy as np

from symex.case import Case, Property
from props.lib import make_sc, set_array, BASE

DEG_PER_M = 8.9992801e-06

INFO = {
 'bounds': 'one to three elements, each in the water, on land, off the maps, to be removed or in the tidal flat; any '
           'velocity (a field constant, or linear in position and time), any scale, longitude and latitude '
           '(|lat| <= 80), forward and backward steps, active ranges anywhere in whole seconds; uncertain runs of '
           'up to three steps with a release or a removal in between',
 'outside': 'gridded interpolation, float64 rounding, polar latitudes',
 'stubs': ['velocity field: an object with at(positions, time) that is linear in lon, lat and time'],
 'assumptions': [],
}

STATUS = ['in_water', 'on_land', 'off_maps', 'to_be_removed', 'on_tideflat']


class Field:
    """v(p, t) = a + b lon + c lat + d t  per component"""
    data_start = BASE
    data_stop = BASE

    def __init__(self, cx, coef, three=True):
        self.cx, self.coef, self.three = cx, coef, three

    def v(self, lon, lat, t, k):
        a, b, c, d = self.coef[k]
        return a + b * lon + c * lat + d * t

    def at(self, pos, time, *a, **k):
        t = (time - BASE).total_seconds()
        rows = [[self.v(pos[i, 0], pos[i, 1], t, j) for j in range(3 if self.three else 2)]
                for i in range(len(pos))]
        return self.cx.array(rows) if rows else np.zeros((0, 3))


def statuses(cx, sc, n):
    from gnome.basic_types import oil_status
    names = [cx.choice('status%d' % i, STATUS) for i in range(n)]
    set_array(sc, 'status_codes', [getattr(oil_status, s) for s in names])
    return [s == 'in_water' for s in names]


def place(cx, sc, n):
    pos = [[cx.real('lon%d' % i, -180, 180), cx.real('lat%d' % i, -80, 80), cx.real('z%d' % i, 0, 100)]
           for i in range(n)]
    set_array(sc, 'positions', pos)
    return pos


def degrees(cx, d, lat):
    """metres to the change of (lon, lat, depth)"""
    return [d[0] * DEG_PER_M / cx.cosd(lat), d[1] * DEG_PER_M, d[2]]


def same(cx, delta, want, i, label):
    for j in range(3):
        cx.observe('d%d%d' % (i, j), delta[i, j])
        cx.prove(cx.close(delta[i, j], want[j], 1e-9, 1e-7), label)


def unmoved(cx, sc, pos, n, label):
    for i in range(n):
        for j in range(3):
            cx.prove(sc['positions'][i, j] == pos[i][j], label)


def window(cx, ts, signed=True):
    """a step and an active range anywhere around it; is it active?"""
    t = cx.time('t', 0, 4000)
    s = cx.time('start', 0, 4000)
    e = cx.time('stop', 0, 4000)
    cx.assume(s < e)
    on = cx.flag('on')
    mid = t + cx.secs(ts / 2)
    return t, (s, e), on, mid


def expect_active(cx, on, rng, mid):
    return on and bool(rng[0] <= mid) and bool(rng[1] >= mid)


def simple(cx, n=2, uncertain=False):
    from gnome.movers import SimpleMover
    n = cx.choice('n', list(range(1, n + 1)))
    ts = cx.choice('ts', [900, -600])
    t, rng, on, mid = window(cx, ts)
    v = [cx.real('v%d' % j, -10, 10) for j in range(3)]
    us = cx.real('us', 0, 1) if uncertain else 0.5
    m = SimpleMover(velocity=v, uncertainty_scale=us, active_range=rng, on=on)
    sc = make_sc(cx, n, None, [m.array_types], uncertain=uncertain)
    water = statuses(cx, sc, n)
    pos = place(cx, sc, n)
    m.prepare_for_model_run()
    m.prepare_for_model_step(sc, ts, t)
    d = m.get_move(sc, ts, t)
    act = expect_active(cx, on, rng, mid)
    for i in range(n):
        if not act or not water[i]:
            same(cx, d, [0, 0, 0], i, 'simple: elements that are not in the water, or while inactive, stay')
        elif not uncertain:
            same(cx, d, degrees(cx, [x * ts for x in v], pos[i][1]), i, 'simple: velocity times the step')
        else:
            w = degrees(cx, [x * ts for x in v], pos[i][1])
            for j in range(3):
                cx.prove(abs(d[i, j] - w[j]) <= us * abs(w[j]) * (1 + 1e-9) + 1e-9,
                         'simple: uncertainty within the scale')
    unmoved(cx, sc, pos, n, 'simple: positions are left to the model')


def rk(cx, method, f, p, t, ts):
    """displacement in metres by the textbook method, in the plane of the starting latitude"""
    def v(q, s):
        return [f.v(q[0], q[1], s, k) for k in range(3)]

    def go(u, h):
        d = degrees(cx, [x * h for x in u], p[1])
        return [p[k] + d[k] for k in range(3)]
    k1 = v(p, t)
    if method == 'Euler':
        return [x * ts for x in k1]
    if method == 'RK2':
        k2 = v(go(k1, ts), t + ts)
        return [(a + b) * ts / 2 for a, b in zip(k1, k2)]
    k2 = v(go(k1, ts / 2), t + ts / 2)
    k3 = v(go(k2, ts / 2), t + ts / 2)
    k4 = v(go(k3, ts), t + ts)
    return [(a + 2 * b + 2 * c + d) * ts / 6 for a, b, c, d in zip(k1, k2, k3, k4)]


def python_mover(cx, kind, n=2, shear=False, gate=True):
    from gnome.movers.py_current_movers import CurrentMover
    from gnome.movers.py_wind_movers import WindMover
    n = cx.choice('n', list(range(1, n + 1)))
    method = cx.choice('method', ['Euler', 'RK2', 'RK4'])
    three = True
    ts = cx.choice('ts', [900, -600, 61])
    if gate:
        t, rng, on, mid = window(cx, ts)
    else:
        t, on, rng, mid = cx.time('t', 0, 4000), True, None, None
    coef = []
    for k in range(3):
        a = cx.real('a%d' % k, -5, 5)
        if shear:
            # fields varying in space: numbers, so that the stages stay linear in the unknowns
            b, c = [(0.5, -0.25), (0.125, 0.75), (0.0, 0.0)][k]
            d = cx.real('d%d' % k, -0.01, 0.01)
        else:
            b = c = 0
            d = cx.real('d%d' % k, -0.01, 0.01) if not gate else 0
        coef.append((a, b, c, d) if k < 2 or three else (0, 0, 0, 0))
    f = Field(cx, coef, three)
    scale = cx.choice('scale', [1, 2.5]) if shear else cx.real('scale', -3, 3)
    kw = dict(active_range=rng) if rng else {}
    if kind == 'current':
        m = CurrentMover(current=f, scale_value=scale, default_num_method=method, on=on, **kw)
    else:
        m = WindMover(wind=f, scale_value=scale, default_num_method=method, on=on, **kw)
    sc = make_sc(cx, n, None, [m.array_types])
    water = statuses(cx, sc, n) if gate else [True] * n
    if shear:
        pos = [[cx.real('lon%d' % i, -180, 180), cx.choice('lat%d' % i, [0.0, 47.0, -70.0]), cx.real('z%d' % i, 0, 100)]
               for i in range(n)]
        set_array(sc, 'positions', pos)
    else:
        pos = place(cx, sc, n)
    w = [1] * n
    if kind == 'wind':
        w = [cx.real('w%d' % i, 0, 0.1) for i in range(n)] if not shear else [0.03] * n
        set_array(sc, 'windage_range', [[x, x] for x in w])
        set_array(sc, 'windage_persist', [-1] * n)
        set_array(sc, 'windages', w)
    m.prepare_for_model_run()
    m.prepare_for_model_step(sc, ts, t)
    d = m.get_move(sc, ts, t)
    act = expect_active(cx, on, rng, mid) if gate else True
    s0 = (t - BASE).total_seconds()
    for i in range(n):
        if not act or not water[i]:
            same(cx, d, [0, 0, 0], i, kind + ': elements that are not in the water, or while inactive, stay')
        else:
            mv = rk(cx, method, f, pos[i], s0, ts)
            # the wind drags in the plane only, whatever the field says below it
            mv = [mv[0] * scale * w[i], mv[1] * scale * w[i], mv[2] * (scale if kind == 'current' else 1)]
            same(cx, d, degrees(cx, mv, pos[i][1]), i, '%s: the move of the %s' % (kind, kind))
    unmoved(cx, sc, pos, n, kind + ': positions are left to the model')


def uncertain_current(cx, steps=3):
    """factors are drawn within the scales after the delay, kept for the duration and stay with their element"""
    from gnome.movers.py_current_movers import CurrentMover
    from gnome.basic_types import oil_status
    n = 2
    ts = 600
    delay = cx.int('delay', 0, 1500)
    dur = cx.int('dur', 0, 3000)
    along = cx.real('along', 0, 1)
    cross = cx.real('cross', 0, 1)
    # a unit current to the east shows the factors directly
    f = Field(cx, [(1, 0, 0, 0), (0, 0, 0, 0), (0, 0, 0, 0)])
    m = CurrentMover(current=f, uncertain_duration=dur, uncertain_time_delay=delay, uncertain_along=along,
                       uncertain_cross=cross, default_num_method='Euler')
    sc = make_sc(cx, n, None, [m.array_types], uncertain=True)
    set_array(sc, 'positions', [[0., 0., 0.]] * n)
    m.prepare_for_model_run()
    drop = cx.choice('drop', [None, 0, 1])
    prev, was = None, None
    for k in range(steps):
        t = BASE + dt.timedelta(seconds=ts * k)
        m.prepare_for_model_step(sc, ts, t)
        d = m.get_move(sc, ts, t)
        r = len(sc['positions'])
        al = [d[i, 0] / (ts * DEG_PER_M) - 1 for i in range(r)]
        cr = [d[i, 1] / (ts * DEG_PER_M) for i in range(r)]
        for i in range(r):
            cx.prove(abs(al[i]) <= along + 1e-9, 'uncertain current: within the scale along')
            cx.prove(abs(cr[i]) <= cross + 1e-9, 'uncertain current: within the scale across')
        if bool(k * ts < delay):
            for i in range(r):
                cx.prove(al[i] == 0 and cr[i] == 0, 'uncertain current: nothing before the delay')
        else:
            if was is None or bool(k * ts >= was + dur):
                was = k * ts        # drawn now
            else:
                for i in range(r):
                    cx.prove(cx.all([cx.close(al[i], prev[i][0], 1e-9), cx.close(cr[i], prev[i][1], 1e-9)]),
                             'uncertain current: an element keeps its factors for the duration')
        prev = [(al[i], cr[i]) for i in range(r)]
        if drop is not None and k == 0:
            sc['status_codes'][drop] = oil_status.to_be_removed
        m.model_step_is_done(sc)
        sc.model_step_is_done()
        if drop is not None and k == 0:
            del prev[drop]
    cx.observe('al', al[0])


def uncertain_wind(cx, steps=3):
    """the wind: before the delay as certain, also when elements are removed"""
    from gnome.movers.py_wind_movers import WindMover
    from gnome.basic_types import oil_status
    n = 2
    ts = 600
    delay = cx.int('delay', 1201, 9000)
    f = Field(cx, [(6, 0, 0, 0), (0, 0, 0, 0), (0, 0, 0, 0)])
    m = WindMover(wind=f, uncertain_duration=10 ** 6, uncertain_time_delay=delay, default_num_method='Euler')
    sc = make_sc(cx, n, None, [m.array_types], uncertain=True)
    set_array(sc, 'positions', [[0., 0., 0.]] * n)
    set_array(sc, 'windage_range', [[0.03, 0.03]] * n)
    set_array(sc, 'windage_persist', [-1] * n)
    set_array(sc, 'windages', [0.03] * n)
    m.prepare_for_model_run()
    drop = cx.choice('drop', [None, 0, 1])
    for k in range(steps):
        t = BASE + dt.timedelta(seconds=ts * k)
        m.prepare_for_model_step(sc, ts, t)
        d = m.get_move(sc, ts, t)
        r = len(sc['positions'])
        cx.prove(r == n - (drop is not None and k > 0), 'uncertain wind: removed elements are gone')
        for i in range(r):
            if bool(k * ts < delay):
                cx.prove(cx.all([cx.close(d[i, 0], 6 * 0.03 * ts * DEG_PER_M, 1e-9), d[i, 1] == 0]),
                         'uncertain wind: nothing before the delay')
        if drop is not None and k == 0:
            sc['status_codes'][drop] = oil_status.to_be_removed
        m.model_step_is_done(sc)
        sc.model_step_is_done()
    cx.observe('d', d[0, 0])


def in_model(cx, steps=2):
    """the moves of all movers add up, from the position at the start of the step"""
    from gnome.model import Model
    from gnome.movers import SimpleMover
    from gnome.spills.spill import Spill
    from gnome.spills.release import PointLineRelease
    back = cx.flag('backward')
    ts = 600
    lon, lat, z = cx.real('lon', -170, 170), cx.real('lat', -79, 79), cx.real('z', 60, 90)
    m = Model(start_time=BASE, time_step=ts, duration=dt.timedelta(seconds=ts * steps), run_backwards=back)
    m.make_default_refs = False
    h = -ts if back else ts
    vs, ons = [], []
    for k in range(2):
        v = [cx.real('v%d%d' % (k, j), -1, 1) if j < 2 else cx.real('v%d%d' % (k, j), -0.02, 0.02) for j in range(3)]
        if k:
            # switched on from the second step only
            edge = BASE + dt.timedelta(seconds=h)
            inf = BASE + dt.timedelta(days=9 if h > 0 else -9)
            on = cx.choice('when', ['always', 'later', 'off'])
            kw = {} if on == 'always' else dict(on=False) if on == 'off' else \
                dict(active_range=(edge, inf) if h > 0 else (inf, edge))
        else:
            on, kw = 'always', {}
        vs.append(v)
        ons.append(on)
        m.movers += SimpleMover(velocity=v, uncertainty_scale=0, **kw)
    n = 2
    m.spills += Spill(release=PointLineRelease(release_time=BASE, start_position=(lon, lat, z), num_elements=n))
    m.step()
    for s in range(steps):
        sc = list(m.spills.items())[0]
        was = [[sc['positions'][i, j] for j in range(3)] for i in range(n)]
        m.step()
        for i in range(n):
            move = [0, 0, 0]
            for v, on in zip(vs, ons):
                if on == 'always' or on == 'later' and s > 0:
                    move = [a + b * h for a, b in zip(move, v)]
            want = degrees(cx, move, was[i][1])
            for j in range(3):
                cx.observe('p%d%d%d' % (s, i, j), sc['positions'][i, j])
                cx.prove(cx.close(sc['positions'][i, j], was[i][j] + want[j], 1e-9, 1e-7), 'in a run the moves of the movers add up')


PROP = Property('C10', [
    Case('simple', simple), Case('simple-uncertain', simple, dict(uncertain=True, n=1)),
    Case('current', python_mover, dict(kind='current')),
    Case('wind', python_mover, dict(kind='wind')),
    Case('current-time', python_mover, dict(kind='current', gate=False)),
    Case('wind-time', python_mover, dict(kind='wind', gate=False)),
    Case('current-shear', python_mover, dict(kind='current', gate=False, shear=True, n=1)),
    Case('wind-shear', python_mover, dict(kind='wind', gate=False, shear=True, n=1)),
    Case('in-model', in_model), Case('uncertain-current', uncertain_current), Case('uncertain-wind', uncertain_wind),
    Case('current-3', python_mover, dict(kind='current', n=3), tier='thorough', budget=900),
    Case('uncertain-current-5', uncertain_current, dict(steps=5), tier='thorough', budget=900),
], pyx=['gnome.utilities.geometry.cy_point_in_polygon'])
