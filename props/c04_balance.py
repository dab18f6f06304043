"""C04: the mass balance closes over whole model runs"""
import datetime as dt

from symex.case import Case, Property
from props.lib import BASE, small_oil, set_array, total

INFO = {
    'functions': ['Model.step', 'Model.move_elements', 'Model._update_fate_status', 'Model.weather_elements',
                  'Model.step_is_done', 'GnomeMap._set_off_map_status', 'SpillContainer.model_step_is_done',
                  'gnome.ops.aggregated_data.aggregate', 'Skimmer.weather_elements'],
    'bounds': 'runs of three steps (four in thorough) with one to two elements of two pseudo-components and any amount, '
              'released at once or over the run; arbitrary displacement of each element in each step, a map with '
              'bounds, beaching of any element at any step; one or two weatherers that take any share of the surface '
              'oil per sub-step, or a skimmer of any rate; forward, with and without uncertainty, one or two sub-steps',
    'outside': 'float64 rounding; weatherers that do not book what they remove (HalfLifeWeatherer)',
    'stubs': ['a mover with arbitrary displacements', 'weatherers that remove arbitrary shares and book them',
              'a map that beaches arbitrary elements in the water'],
    'assumptions': [],
}
TS = 600


def parts(cx, n, beach):
    from gnome.movers import Mover
    from gnome.weatherers.core import Weatherer
    from gnome.maps.map import GnomeMap
    from gnome.basic_types import oil_status

    class Any(Mover):
        k = 0

        def get_move(self, sc, ts, t):
            d = [[0.0, 0.0, 0.0] for i in range(len(sc))]
            for i in range(len(sc)):
                if sc['status_codes'][i] == oil_status.in_water and not sc.uncertain:
                    d[i][0] = cx.real('dx_%d_%d' % (int(sc['id'][i]), self.k), -2, 2)
            if not sc.uncertain:
                self.k += 1
            return cx.array(d).reshape((-1, 3))

    class Takes(Weatherer):
        key = 'evaporated'
        k = 0

        def __init__(self, key, **kw):
            super().__init__(**kw)
            self.key = key
            from gnome.array_types import gat
            self.array_types.update({a: gat(a) for a in ('mass', 'mass_components', 'init_mass')})

        def prepare_for_model_run(self, sc):
            sc.mass_balance[self.key] = 0.0

        def weather_elements(self, sc, ts, t):
            for sub, data in sc.itersubstancedata(self.array_types):
                for i in range(len(data['mass'])):
                    f = cx.choice('%s%d_%d' % (self.key, self.k, i), [0.25, 1.0]) if self.k % 2 else cx.real(
                        '%s%d_%d' % (self.key, self.k, i), 0, 1)
                    m = data['mass'][i]
                    keep = 1 - f
                    sc.mass_balance[self.key] += m * f
                    data['mass'][i] = m * keep
                    for c in range(2):
                        data['mass_components'][i, c] = data['mass_components'][i, c] * keep
            self.k += 1
            sc.update_from_fatedataview()

    class Shore(GnomeMap):
        k = 0

        def beach_elements(self, sc, model_time=None):
            for i in range(len(sc)):
                if beach and sc['status_codes'][i] == oil_status.in_water and not sc.uncertain:
                    if cx.flag('beach_%d_%d' % (int(sc['id'][i]), self.k)):
                        sc['status_codes'][i] = oil_status.on_land
            if not sc.uncertain:
                self.k += 1
            super().beach_elements(sc, model_time)
    return Any, Takes, Shore


def closes(cx, sc, keys, label):
    mb = sc.mass_balance
    m = [sc['mass'][i] for i in range(len(sc))]
    booked = [mb[k] for k in keys] + [mb['off_maps']]
    cx.prove(cx.close(mb['amount_released'], total(m) + total(booked), 1e-6, 1e-6),
             label + ': released = afloat and ashore + weathered + off the map')
    from gnome.basic_types import oil_status
    land = [m[i] for i in range(len(m)) if sc['status_codes'][i] == oil_status.on_land]
    cx.prove(cx.close(mb['beached'], total(land), 1e-6, 1e-6), label + ': beached is the mass ashore')
    wet = [m[i] for i in range(len(m)) if sc['status_codes'][i] == oil_status.in_water]
    cx.prove(cx.close(mb['floating'], total(wet), 1e-6, 1e-6), label + ': floating is the mass on the water')
    for k in keys + ['off_maps', 'beached', 'floating']:
        cx.prove(mb[k] >= -1e-9, label + ': no negative amounts')
    cx.prove(all(s not in (oil_status.off_maps, oil_status.to_be_removed) for s in sc['status_codes']),
             label + ': elements off the map are gone')


def run(cx, n=2, steps=3, cont=False, beach=False, sub=1, skim=False, two=False, uncertain=False, plain=False):
    from gnome.model import Model
    from gnome.spills.spill import Spill
    from gnome.spills.release import PointLineRelease
    from gnome.weatherers import Skimmer
    Any, Takes, Shore = parts(cx, n, beach)
    amount = cx.real('amount', 1, 1000)
    rel = PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=n,
                           end_release_time=BASE + dt.timedelta(seconds=TS * (steps - 1)) if cont else None)
    m = Model(start_time=BASE, time_step=TS, duration=dt.timedelta(seconds=TS * (steps - 1)),
              weathering_substeps=sub, uncertain=uncertain,
              map=Shore(map_bounds=((-1., -1.), (-1., 1.), (1., 1.), (1., -1.))))
    m.movers += Any()
    keys = []
    if skim:
        # as much as any amount of surface oil
        m.weatherers += Skimmer(cx.real('skim', 0, 2000), units='kg', efficiency=0.5, water=water(),
                                active_range=(BASE + dt.timedelta(seconds=TS // 2),
                                              BASE + dt.timedelta(seconds=TS * 2)))
        keys.append('skimmed')
    elif not plain:
        for k in ['evaporated', 'dispersed'][:2 if two else 1]:
            m.weatherers += Takes(k)
            keys.append(k)
    m.spills += Spill(release=rel, substance=None if plain else small_oil(2), amount=amount, units='kg')
    m.make_default_refs = False
    for s in range(steps):
        m.step()
        cs = list(m.spills.items())
        closes(cx, cs[0], keys, 'step')
        if uncertain:
            sc = cs[1]
            ms = [sc['mass'][i] for i in range(len(sc))]
            cx.prove(cx.close(sc.mass_balance['amount_released'], total(ms), 1e-6, 1e-6),
                     'uncertain: nothing is weathered')
        if not cont:
            cx.prove(cx.close(cs[0].mass_balance['amount_released'], amount, 1e-6, 1e-6), 'step: amount released')
    if cont:
        cx.prove(cx.close(cs[0].mass_balance['amount_released'], amount, 1e-6, 1e-6), 'end: amount released')
    cx.observe('released', cs[0].mass_balance['amount_released'])
    cx.observe('off', cs[0].mass_balance['off_maps'])


def water():
    from gnome.environment import Water
    return Water(temperature=288.15, units={'temperature': 'K'})


PROP = Property('C04', [
    Case('one', run, dict(n=1, beach=True)),
    Case('two', run, dict(n=2)),
    Case('continuous', run, dict(n=2, cont=True)),
    Case('processes', run, dict(n=1, two=True)),
    Case('substeps', run, dict(n=1, sub=2)),
    Case('uncertain', run, dict(n=1, uncertain=True)),
    Case('plain', run, dict(n=2, plain=True, beach=True)),
    Case('skimmer', run, dict(n=1, skim=True)),
    Case('beach-2', run, dict(n=2, beach=True), tier='thorough', budget=1500, max_paths=60000),
    Case('four', run, dict(n=1, steps=4, beach=True, two=True), tier='thorough', budget=1500, max_paths=60000),
], pyx=['gnome.utilities.geometry.cy_point_in_polygon'])
