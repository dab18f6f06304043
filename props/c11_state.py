"""C11: saved steps and output report the state of the run"""
import contextlib
import datetime as dt
import io

from symex.case import Case, Property
from props.lib import BASE, small_oil, total

INFO = {
    'functions': ['ElementCache.save_timestep', 'ElementCache.load_timestep', 'ElementCache.rewind',
                  'WeatheringOutput.write_output', 'MemoryOutputter.write_output', 'Outputter.write_output',
                  'SpillContainerPairData.LE', 'Model.step', 'Model.rewind'],
    'bounds': 'runs of three steps (four in thorough), one or two elements of any mass moved by any amount and losing any '
              'share per step, with and without the cache on disk and an uncertain container, outputters switched on or off',
    'outside': 'file formats of numpy, NetCDF, KMZ and shape files; concurrent writers',
    'stubs': ['numpy.savez and numpy.load: arrays kept by file name', 'a mover and a weatherer with any effect'],
    'assumptions': [],
}
TS = 900


def parts(cx):
    from gnome.movers import Mover
    from gnome.weatherers.core import Weatherer

    class Any(Mover):
        k = 0

        def get_move(self, sc, ts, t):
            self.k += 1
            return cx.array([[cx.real('dx%d_%d' % (self.k, i), -1, 1), 0.5, 0.25] for i in range(len(sc))])

    class Takes(Weatherer):
        k = 0

        def __init__(self, **kw):
            super().__init__(**kw)
            from gnome.array_types import gat
            self.array_types.update({a: gat(a) for a in ('mass', 'mass_components', 'init_mass')})

        def prepare_for_model_run(self, sc):
            self.k = 0
            sc.mass_balance['evaporated'] = 0.0

        def weather_elements(self, sc, ts, t):
            f = cx.real('f%d' % self.k, 0, 1)
            self.k += 1
            for sub, data in sc.itersubstancedata(self.array_types):
                for i in range(len(data['mass'])):
                    m = data['mass'][i]
                    sc.mass_balance['evaporated'] += m * f
                    data['mass'][i] = m * (1 - f)
                    data['mass_components'][i, 0] = m * (1 - f)
            sc.update_from_fatedataview()
    return Any, Takes


def snapshot(sc):
    import numpy as np
    arrays = {}
    for k, a in sc.data_arrays.items():
        arrays[k] = [x for x in np.ravel(a)]
    return arrays, dict(sc.mass_balance), sc.current_time_stamp


def eq(x, y):
    if isinstance(x, float) and isinstance(y, float) and x != x and y != y:
        return True             # both NaN
    return x == y


def same(cx, snap, sc, label):
    import numpy as np
    arrays, mb, t = snap
    cx.prove(set(sc.data_arrays) == set(arrays), label + ': the same arrays')
    for k in arrays:
        v = list(np.ravel(sc[k]))
        cx.prove(len(v) == len(arrays[k]) and cx.all([eq(x, y) for x, y in zip(v, arrays[k])]), label + ': ' + k)
    cx.prove(set(sc.mass_balance) == set(mb), label + ': the same amounts')
    for k in mb:
        cx.prove(sc.mass_balance[k] == mb[k], label + ': amounts')
    cx.prove(sc.current_time_stamp == t, label + ': time')


def run(cx, n, steps, disk, uncertain=False, again=False):
    from gnome.model import Model
    from gnome.spills.spill import Spill
    from gnome.spills.release import PointLineRelease
    from gnome.outputters import WeatheringOutput
    from gnome.outputters.memory_outputter import MemoryOutputter
    Any, Takes = parts(cx)
    rel = PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=n)
    m = Model(start_time=BASE, time_step=TS, duration=dt.timedelta(seconds=TS * (steps - 1)), uncertain=uncertain,
              cache_enabled=disk)
    m.make_default_refs = False
    m.movers += Any()
    m.weatherers += Takes()
    on, zero = cx.flag('on'), cx.flag('zero')
    wo = WeatheringOutput(on=on, output_zero_step=zero)
    m.outputters += wo
    mo = None
    if not uncertain:
        mo = MemoryOutputter(on=on, output_zero_step=zero)
        m.outputters += mo
    m.spills += Spill(release=rel, substance=small_oil(1), amount=cx.real('amount', 1, 1000), units='kg')
    snaps = []
    for s in range(steps):
        with contextlib.redirect_stdout(io.StringIO()):     # MemoryOutputter prints
            r = m.step()
        cs = list(m.spills.items())
        snaps.append([snapshot(sc) for sc in cs])
        due = on and (s > 0 or zero)
        cx.prove(('WeatheringOutput' in r) == due, 'amounts are returned for the steps due, and none when switched off')
        if due:
            w = r['WeatheringOutput']
            for k, v in snaps[-1][0][1].items():
                cx.prove(w[k] == v, 'the amounts returned are those of the step')
        # what was saved is a copy: neither the run nor a reader can change it
        for sc in cs:
            sc['mass'] += 1
            sc['positions'][:, 2] += 1
            for k in sc.mass_balance:
                sc.mass_balance[k] = sc.mass_balance[k] + 1
        c = m._cache.load_timestep(s)
        for snap, sc in zip(snaps[-1], c.items()):
            same(cx, snap, sc, 'latest step')
            sc['mass'] += 1
            sc['positions'][:, 2] += 1
            for k in sc.mass_balance:
                sc.mass_balance[k] = sc.mass_balance[k] + 1
        c = m._cache.load_timestep(s)
        for snap, sc in zip(snaps[-1], c.items()):
            same(cx, snap, sc, 'latest step, read again')
        for sc in cs:
            sc['mass'] -= 1
            sc['positions'][:, 2] -= 1
            for k in sc.mass_balance:
                sc.mass_balance[k] = sc.mass_balance[k] - 1
        cx.prove(len(list(c.items())) == len(cs), 'certain and uncertain elements')
    if mo is not None:
        k0 = 0 if zero else 1
        rec = mo.data_buffer.certain
        cx.prove(len(rec) == (steps - k0 if on else 0), 'steps kept in memory')
        if on:
            import numpy as np
            for d, snap in zip(rec, snaps[k0:]):
                cx.prove(d['time'] == snap[0][2], 'kept in memory: time')
                for k in ('mass', 'positions', 'age', 'status_codes'):
                    cx.prove(cx.all([x == y for x, y in zip(np.ravel(d[k]), snap[0][0][k])]), 'kept in memory: ' + k)
    if disk:
        for s in range(steps):
            c = m._cache.load_timestep(s)
            for snap, sc in zip(snaps[s], c.items()):
                same(cx, snap, sc, 'earlier step')
            cx.prove(len(list(c.items())) == len(snaps[s]), 'certain and uncertain elements')
            cx.prove(c.LE('mass')[0] == snaps[s][0][0]['mass'][0], 'elements by name')
    if again:
        m.rewind()
        from gnome.utilities.cache import CacheError
        gone = 0
        for s in range(steps):
            try:
                m._cache.load_timestep(s)
            except CacheError:
                gone += 1
        cx.prove(gone == steps, 'rewinding empties the cache')


PROP = Property('C11', [
    Case('memory', run, dict(n=2, steps=3, disk=False)),
    Case('disk', run, dict(n=1, steps=3, disk=True, again=True)),
    Case('uncertain', run, dict(n=1, steps=2, disk=True, uncertain=True)),
    Case('long', run, dict(n=2, steps=4, disk=True, again=True), tier='thorough', budget=1500),
], pyx=['gnome.utilities.geometry.cy_point_in_polygon'])
