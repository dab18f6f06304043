"""C07 release: the configured elements, at the configured place and time"""
import datetime as dt
from symex.case import Case, Property
from props.lib import small_oil, total

INFO = {
 'bounds': '1-4 elements (or 1-2 per time step) over 0-3 release steps, run of 1-4 model steps in '
           'the half-step pattern the model uses; time step any whole second 60..3600, release '
           'time and duration any whole second, start before, at or after the release; line ends '
           'and amount symbolic; one or two spills, one on or off; certain and uncertain containers',
 'outside': 'float64 rounding, polygon releases (shapely), releases with more elements, backward '
            'runs',
 'stubs': ['gridded.time.Time stand-in (bisection and linear weights)'],
 'assumptions': ['at least as many elements as release steps (the code refuses fewer)',
                 'consecutive model steps'],
}


def schedule(cx, t0, ts, steps):
    """the intervals Model.step asks to be released"""
    out = [(t0, t0)]
    t = t0
    half = cx.secs(ts / 2)
    for i in range(steps):
        nt = t + cx.secs(ts)
        out.append((t, t + half))
        out.append((nt - half, nt))
        t = nt
    return out


def steps_of(dur, ts):
    """release steps of a duration (at least one)"""
    n = 1
    while dur > ts * n:
        n += 1
    return n


def on_segment(cx, p, a, b):
    cross = (p[0] - a[0]) * (b[1] - a[1]) - (p[1] - a[1]) * (b[0] - a[0])
    cx.prove(cx.all([cross <= 1e-6, cross >= -1e-6]), 'release: on the line')
    for k in range(2):
        lo, hi = cx.mn(a[k], b[k]), cx.mx(a[k], b[k])
        cx.prove(cx.all([p[k] >= lo - 1e-9, p[k] <= hi + 1e-9]), 'release: between the ends')


def run(cx, num=3, max_steps=2, per_ts=False, steps=3, cont=True, line=False, custom=0,
        late=False, plain=False):
    from gnome.spill_container import SpillContainer
    from gnome.spills.spill import Spill
    from gnome.spills.release import PointLineRelease, Release
    ts = cx.int('ts', 60, 3600)
    rel_t = cx.time('release', 0, 20000)
    t0 = cx.time('t0', 0, 20000)
    if not late:
        cx.assume(t0 <= rel_t)
        cx.assume(rel_t < t0 + cx.secs(ts * steps))
    if cont:
        dur = cx.int('dur', 1, 3600 * max_steps)
        cx.assume(dur <= ts * max_steps)
    else:
        dur = 0
    amount = cx.real('amount', 0, 1e6)
    kw = dict(release_time=rel_t, end_release_time=(rel_t + cx.secs(dur)) if cont else None)
    kw['num_per_timestep' if per_ts else 'num_elements'] = num
    a = [cx.real('a%d' % i, -10, 10) for i in range(2)] + [0.0]
    b = [cx.real('b%d' % i, -10, 10) for i in range(2)] + [0.0] if line else None
    if custom:
        pts = [[float(i), a[1], 0.0] for i in range(custom)]
        r = Release(custom_positions=cx.array(pts), **kw)
    else:
        r = PointLineRelease(start_position=cx.array(a),
                             end_position=cx.array(b) if line else None, **kw)
    sp = Spill(release=r, amount=amount, units='kg')
    sc = SpillContainer()
    sc.spills += sp
    sc.prepare_for_model_run(sp.all_array_types, ts)
    nts = steps_of(dur, ts) if cont else 1
    want = num * nts if per_ts else num
    seen = 0
    last = None
    for s, e in schedule(cx, t0, ts, steps):
        got = sc.release_elements(s, e, environment={'water': None})
        n = len(sc)
        cx.prove(n == seen + got, 'release: reported number appears')
        cx.prove(n >= seen, 'release: elements never disappear by releasing')
        cx.prove(n <= want, 'release: never more than configured')
        if e < rel_t:
            cx.prove(n == 0, 'release: nothing before the release time')
        elif cont and e < rel_t + cx.secs(dur):
            # every release step gets its equal share, to within one element
            k = 0
            while k < nts - 1 and e >= rel_t + cx.secs(ts * (k + 1)):
                k += 1
            cx.prove(n * nts >= want * k - nts, 'release: not behind the schedule')
            cx.prove(n * nts <= want * (k + 1) + nts, 'release: not ahead of the schedule')
            cx.reach('during')
        else:
            cx.prove(n == want, 'release: everything configured once the release has ended')
        for i in range(seen, n):
            p = [sc['positions'][i, k] for k in range(3)]
            cx.observe('x%d' % i, p[0])
            if line:
                on_segment(cx, p, a, b)
                if last is not None:
                    for k in range(2):
                        cx.prove(cx.implies(b[k] >= a[k], p[k] >= last[k] - 1e-9),
                                 'release: a moving source never goes back')
                        cx.prove(cx.implies(b[k] <= a[k], p[k] <= last[k] + 1e-9),
                                 'release: a moving source never goes back')
                last = p
            elif not custom:
                for k in range(3):
                    cx.prove(cx.close(p[k], a[k]), 'release: at the point')
            else:
                cx.prove(cx.any([cx.all([cx.close(p[0], q[0]), cx.close(p[1], q[1])])
                                 for q in pts]), 'release: at one of the given positions')
            cx.prove(sc['spill_num'][i] == 0, 'release: marked with its spill')
            cx.prove(sc['age'][i] == 0, 'release: age 0')
            cx.prove(sc['status_codes'][i] == 2, 'release: in the water')
        if custom and n - seen >= custom:
            # every position is served before any is drawn at random
            for q in pts:
                cx.prove(cx.any([cx.close(sc['positions'][i, 0], q[0]) for i in range(seen, n)]),
                         'release: every given position is used')
        seen = n
    if line and not cont and seen == num and not late:
        for k in range(2):
            cx.prove(cx.close(sc['positions'][0, k], a[k]), 'release: the line starts at its start')
            cx.prove(cx.close(sc['positions'][num - 1, k], b[k]), 'release: the line ends at its end')
    m = total([sc['mass'][i] for i in range(seen)])
    cx.observe('mass', m)
    cx.observe('n', seen)
    for i in range(seen):
        cx.prove(cx.close(sc['mass'][i] * want, amount, 1e-6, 1e-9),
                 'release: every element carries the same share of the amount')
        cx.prove(cx.close(sc['init_mass'][i], sc['mass'][i], 1e-6, 1e-9),
                 'release: initial mass is the mass at release')
    if seen == want:
        cx.prove(cx.close(m, amount, 1e-6, 1e-9), 'release: the whole amount is released')
    for i in range(seen):
        cx.prove(sc['id'][i] == i, 'release: ids count from 0 in order of release')


def two(cx, steps=1, uncertain=False):
    """two spills, each on or off, in one container: each gets its own elements"""
    from gnome.spill_container import SpillContainer, SpillContainerPair
    from gnome.spills.spill import Spill
    from gnome.spills.release import PointLineRelease
    ts = 900
    t0 = cx.time('t0', 0, 20000)
    nums = (1, 2)
    spills, want = [], {}
    for i in range(2):
        rel_t = cx.time('release%d' % i, 0, 20000)
        cx.assume(cx.all([t0 <= rel_t, rel_t <= t0 + cx.secs(ts * steps)]))
        x = cx.real('x%d' % i, -10, 10)
        am = cx.real('am%d' % i, 0, 1e6)
        on = cx.flag('on%d' % i)
        sp = Spill(release=PointLineRelease(release_time=rel_t, start_position=cx.array([x, 1., 0.]),
                                            num_elements=nums[i]), amount=am, units='kg', on=on)
        spills.append(sp)
        want[i] = (nums[i] if on else 0, x, am)
    if uncertain:
        pair = SpillContainerPair(uncertain=True)
        for s in spills:
            pair += s
        conts = list(pair.items())
    else:
        c = SpillContainer()
        for s in spills:
            c.spills += s
        conts = [c]
    for c in conts:
        c.prepare_for_model_run(spills[0].all_array_types, ts)
        for s, e in schedule(cx, t0, ts, steps):
            c.release_elements(s, e, environment={'water': None})
        n = [len([1 for j in range(len(c)) if bool(c['spill_num'][j] == i)]) for i in range(2)]
        cx.prove(len(c) == want[0][0] + want[1][0], 'spills: the elements of the spills that are on')
        for i in range(2):
            cx.prove(n[i] == want[i][0], 'spills: each spill releases its own elements')
        for j in range(len(c)):
            i = int(c['spill_num'][j])
            cx.prove(cx.close(c['positions'][j, 0], want[i][1]), 'spills: at their own place')
            cx.prove(cx.close(c['mass'][j] * nums[i], want[i][2], 1e-6), 'spills: with their own amount')
            cx.prove(c['id'][j] == j, 'spills: ids count from 0 over all spills')


def grid(cx, nx=2, ny=2):
    from gnome.spill_container import SpillContainer
    from gnome.spills.spill import Spill
    from gnome.spills.release import GridRelease
    t0 = cx.time('t0', 0, 20000)
    rel_t = cx.time('release', 0, 20000)
    cx.assume(cx.all([t0 <= rel_t, rel_t <= t0 + cx.secs(900)]))
    lo = [cx.real('lo%d' % i, -10, 10) for i in range(2)]
    hi = [cx.real('hi%d' % i, -10, 10) for i in range(2)]
    for i in range(2):
        cx.assume(lo[i] < hi[i])
    am = cx.real('am', 0, 1e6)
    r = GridRelease(rel_t, cx.array([lo, hi]), (nx, ny))
    sp = Spill(release=r, amount=am, units='kg')
    sc = SpillContainer()
    sc.spills += sp
    sc.prepare_for_model_run(sp.all_array_types, 900)
    for s, e in schedule(cx, t0, 900, 1):
        sc.release_elements(s, e, environment={'water': None})
    cx.prove(len(sc) == nx * ny, 'grid: as many elements as grid points')
    for i in range(nx):
        for j in range(ny):
            x = lo[0] + (hi[0] - lo[0]) * i / (nx - 1)
            y = lo[1] + (hi[1] - lo[1]) * j / (ny - 1)
            cx.prove(cx.any([cx.all([cx.close(sc['positions'][k, 0], x), cx.close(sc['positions'][k, 1], y)])
                             for k in range(nx * ny)]), 'grid: an element at every grid point')
    for k in range(nx * ny):
        cx.prove(cx.close(sc['mass'][k] * nx * ny, am, 1e-6), 'grid: equal shares')


def again(cx, num=2, steps=2, oil=True):
    """a rewound container releases the same again"""
    from gnome.spill_container import SpillContainer
    from gnome.spills.spill import Spill
    from gnome.spills.release import PointLineRelease
    ts = 900
    t0 = cx.time('t0', 0, 20000)
    rel_t = cx.time('release', 0, 20000)
    cx.assume(cx.all([t0 <= rel_t, rel_t < t0 + cx.secs(ts)]))
    dur = cx.int('dur', 0, 900 * steps)
    a = [cx.real('a%d' % i, -10, 10) for i in range(2)] + [0.0]
    b = [cx.real('b%d' % i, -10, 10) for i in range(2)] + [0.0]
    am = cx.real('am', 1, 1e6)
    sp = Spill(release=PointLineRelease(release_time=rel_t, end_release_time=rel_t + cx.secs(dur),
                                        start_position=cx.array(a), end_position=cx.array(b),
                                        num_elements=num),
               substance=small_oil(2) if oil else None, amount=am, units='kg')
    sc = SpillContainer()
    sc.spills += sp
    stop = cx.choice('stop', list(range(1, 2 * steps + 2)))
    runs = []
    for k in range(2):
        sc.prepare_for_model_run(sp.all_array_types, ts)
        for s, e in schedule(cx, t0, ts, steps)[:stop]:
            sc.release_elements(s, e, environment={'water': None})
        runs.append({n: sc[n].copy() for n in sc.array_types})
        sc.rewind()
        cx.prove(len(sc) == 0, 'rewind: no elements')
    first, second = runs
    cx.prove(sorted(first) == sorted(second), 'rewind: the same data arrays')
    for n in first:
        if n == 'windages':
            continue                    # drawn at random
        cx.prove(first[n].shape == second[n].shape, 'rewind: the same number of elements')
        if first[n].ndim == 1:
            for i in range(len(first[n])):
                x, y = first[n][i], second[n][i]
                if x is y or not bool(x == x) and not bool(y == y):
                    continue
                cx.prove(cx.close(x, y), 'rewind: the same values again (%s)' % n)


PROP = Property('C07', [
    Case('instant', run, dict(cont=False)),
    Case('cont', run, dict()),
    Case('line', run, dict(line=True, steps=2)),
    Case('instant-line', run, dict(cont=False, line=True, steps=1)),
    Case('per-step', run, dict(per_ts=True, num=2, steps=2)),
    Case('custom', run, dict(custom=2, steps=2)),
    Case('late', run, dict(late=True, steps=1)),
    Case('two', two, dict()),
    Case('two-uncertain', two, dict(uncertain=True)),
    Case('rewind', again, dict(steps=1)),
    Case('grid', grid, dict(nx=2, ny=2)),
    Case('cont-long', run, dict(num=5, max_steps=3, steps=4), tier='thorough', budget=800),
    Case('line-long', run, dict(num=4, max_steps=3, line=True, steps=3), tier='thorough', budget=800),
    Case('custom-long', run, dict(num=5, custom=3, steps=3), tier='thorough', budget=800),
    Case('rewind-long', again, dict(steps=2), tier='thorough', budget=800),
    Case('grid-long', grid, dict(nx=3, ny=2), tier='thorough', budget=800),
])
