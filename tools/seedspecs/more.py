import sys; sys.path.insert(0, "/verif")
from tools.seedspecs.c01 import COMMON
P = 'py_gnome/'
G = P + 'gnome/'
LIGHT = '''
import datetime as dt
import numpy as np
import gnome
BASE = dt.datetime(2015, 1, 1)
'''
SEEDS = [
 dict(id='C09-reused-id', property='C09',
      edits=[(G + 'spill_container.py', "                        self['id'][-1] + 1", "                        len(self['id'])")],
      demo=COMMON + '''
from gnome.basic_types import oil_status
rel = PointLineRelease(release_time=BASE, end_release_time=BASE + dt.timedelta(hours=1), start_position=(0., 0., 0.), num_elements=40)
sp = Spill(release=rel, amount=10., units='kg')
sc = SpillContainer()
sc.spills += sp
sc.prepare_for_model_run(sp.all_array_types, 900)
t = BASE
seen = set()
for i in range(4):
    n = len(sc)
    sc.release_elements(t, t + dt.timedelta(seconds=900), environment={'water': None})
    new = [int(x) for x in sc['id'][n:]]
    assert not seen & set(new), (seen, new)
    seen |= set(new)
    sc['status_codes'][:3] = oil_status.to_be_removed
    sc.model_step_is_done()
    t += dt.timedelta(seconds=900)
''', needs='elements removed while a later release of the same run is still to come',
      breaks='new elements get ids that others of the run already had'),
 dict(id='C10-rk4-time', property='C10',
      edits=[(G + 'movers/movers.py', "        v2 = vel_field.at(p2, new_time_dt2)", "        v2 = vel_field.at(p2, new_time_dt)")],
      demo=LIGHT + '''
from gnome.movers.movers import PyMover
class Field:
    def at(self, p, t, **k):
        s = (t - BASE).total_seconds()
        return np.array([[1e-6 * s * s, 0., 0.]] * len(p))
m = PyMover(default_num_method='RK4')
d = m.delta_method('RK4')(None, 900., BASE, np.zeros((1, 3)), Field())
assert abs(d[0][0] - 1e-6 * 900. ** 3 / 3) < 1e-6, d
''', needs='the fourth order method in a field that changes in time',
      breaks='the third slope is taken at the end of the step, so displacements are wrong'),
 dict(id='C11-cached-arrays', property='C11',
      edits=[(G + 'utilities/cache.py', "            data = copy.deepcopy(sc.data_arrays)", "            data = dict(sc.data_arrays)")],
      demo=COMMON + '''
from gnome.utilities.cache import ElementCache
from gnome.spill_container import SpillContainerPair
pair = SpillContainerPair(uncertain=False)
pair += Spill(release=PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=3), amount=10., units='kg')
sc = list(pair.items())[0]
sc.prepare_for_model_run(pair._spill_container.spills[0].all_array_types, 900)
sc.release_elements(BASE, BASE + dt.timedelta(seconds=900), environment={'water': None})
sc.current_time_stamp = BASE
c = ElementCache(enabled=False)
c.save_timestep(0, pair)
sc['positions'][:] = 7.
s = c.load_timestep(0)
x = list(s.items())[0]['positions']
assert np.all(x == 0), x
''', needs='a step read back from the most recent entry of the cache after the container moved on in place',
      breaks='the cached step shows the state of a later one'),
 dict(id='C13-slice-step', property='C13',
      edits=[(G + 'utilities/orderedcollection.py', "return [self.get(ix) for ix in range(start, stop, step)]",
              "return [self.get(ix) for ix in range(start, stop, max(step, 1))]")],
      demo=LIGHT + '''
from gnome.utilities.orderedcollection import OrderedCollection
c = OrderedCollection([1, 2, 3, 4], dtype=int)
assert c[::-1] == [4, 3, 2, 1], c[::-1]
''', needs='a slice with a negative step', breaks='reversed slices of a collection are empty'),
 dict(id='C14-falling-wind', property='C14',
      edits=[(P + 'lib_gnome/OSSMTimeValue_c.cpp', "	if (fabs(dv) < TIMEVALUE_TOLERANCE) {", "	if (dv < TIMEVALUE_TOLERANCE) {")],
      demo=LIGHT + '''
from gnome.environment.wind import Wind
from gnome.basic_types import datetime_value_2d
ts = np.array([(BASE + dt.timedelta(hours=h), (u, 0.)) for h, u in ((0, 1.), (1, 9.), (2, 3.))], dtype=datetime_value_2d)
w = Wind(timeseries=ts, units='m/s', coord_sys='uv')
u = w.at(np.zeros((1, 3)), BASE + dt.timedelta(minutes=90))[0][0]
assert abs(u - 6.) < 1e-6, u
''', needs='a series of three or more entries with a falling component',
      breaks='falling components jump to the next entry instead of being interpolated'),
 dict(id='C21-early-start', property='C21',
      edits=[(P + 'lib_gnome/Weatherers_c.cpp', "if (bulltime[i] < 0.)", "if (bulltime[i] <= 0.)")],
      demo=COMMON + '''
from gnome.weatherers import Emulsification
from gnome.environment import Waves, Water, constant_wind
OIL2 = GnomeOil(name='t', api=30., pour_point=250., solubility=0.0, bullwinkle_fraction=0.01,
    emulsion_water_fraction_max=0.9, densities=[880., 860.], density_ref_temps=[273.15, 300.15],
    density_weathering=[0., 0.], kvis=[1e-4, 5e-5], kvis_ref_temps=[273.15, 300.15], kvis_weathering=[0., 0.],
    mass_fraction=[0.6, 0.4], boiling_point=[400., 700.], molecular_weight=[120., 300.],
    component_density=[800., 900.], k0y=2.024e-06)
OIL = OIL2
w = Emulsification(waves=Waves(wind=constant_wind(8., 0., 'm/s'), water=Water(temperature=288.15)))
sc = make_sc(w, n=1)
sc['frac_evap'][:] = 0.5
sc['bulltime'][:] = 0.
sc['age'][:] = 3600
sc['interfacial_area'][:] = 0.
sc.reset_fate_dataview()
step(w, sc, BASE)
assert sc['bulltime'][0] == 0., sc['bulltime']
a = float(sc['interfacial_area'][0])
assert a > 0, a
''', needs='an element that began to emulsify at its release',
      breaks='the time at which it began to emulsify is set again in each step'),
 dict(id='C22-largest-limit', property='C22',
      edits=[(G + 'weatherers/spreading.py', "            area[s_mask] = np.minimum(new_le_area, max_area_le[s_mask])",
              "            area[s_mask] = np.minimum(new_le_area, max_area_le[s_mask].max())")],
      demo=LIGHT + '''
from gnome.weatherers.spreading import FayGravityViscous as F
a = F().update_area(1e-6, 0.1, np.array([100., 100.]), np.array([1000., 1000.]), np.array([1001., 1e9]), 900,
                    np.array([.5, .5]), np.array([7200, 7200]))
assert a[0] <= 1001. + 1e-6, a
''', needs='two elements of one spill with different limits of their area',
      breaks='an element spreads beyond its own thickness limit'),
 dict(id='C23-last-substep', property='C23',
      edits=[(G + 'model.py', "            res.append((sum(res[-1]), time_step % sub_step))",
              "            res.append((sum(res[-1]), sub_step))")],
      demo=COMMON + '''
from gnome.model import Model
from gnome.weatherers import Weatherer
seen = []
class W(Weatherer):
    def weather_elements(self, sc, time_step, model_time):
        seen.append(time_step)
m = Model(start_time=BASE, duration=dt.timedelta(seconds=1000), time_step=1000, weathering_substeps=3)
m.weatherers += W()
m.spills += Spill(release=PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=2),
                  substance=OIL, amount=10., units='kg')
m.step()
m.step()
assert abs(sum(seen) - 1000) < 1e-9, seen
''', needs='a number of weathering sub steps that does not divide the time step',
      breaks='the sub steps add up to more than the step'),
 dict(id='C24-drift', property='C24',
      edits=[(G + 'outputters/outputter.py', """                self._dt_since_lastoutput = (self._dt_since_lastoutput %
                                             self._output_timestep)""", "                self._dt_since_lastoutput = 0")],
      demo=LIGHT + '''
from gnome.outputters import Outputter
class O(Outputter):
    def __init__(self, **k):
        Outputter.__init__(self, **k)
        self.got = []
    def write_output(self, step_num, islast_step=False):
        super().write_output(step_num, islast_step)
        if self._write_step:
            self.got.append(step_num)
from gnome.model import Model
o = O(output_timestep=dt.timedelta(minutes=25))
m = Model(start_time=BASE, duration=dt.timedelta(minutes=150), time_step=600)
m.outputters += o
m.full_run()
# 0, 25, 50, 75, 100, 125, 150 minutes: at the first step from then on
assert o.got == [0, 3, 5, 8, 10, 13, 15], o.got
''', needs='an output step that is no multiple of the time step',
      breaks='the output falls behind its schedule more and more'),
 dict(id='C27-rise-cubic', property='C27',
      edits=[(P + 'lib_gnome/RiseVelocity_c.cpp', "		c2 = -3.0*a1 -2.0*a2 + 3.0*a3 - a4;\n		c1",
              "		c2 = -3.0*a1 -2.0*a2 + 3.0*a3 + a4;\n		c1")],
      demo=LIGHT + '''
from gnome.cy_gnome.cy_rise_velocity_mover import rise_velocity_from_drop_size as f
d = np.array([0.0099999, 0.01])
n = len(d)
v = np.zeros(n)
f(v, np.full(n, 860.), d, 1e-6, 1025.)
assert abs(v[1] - v[0]) < 1e-3, v
''', needs='droplets between the small and the large spherical regime',
      breaks='rise velocity is not a smooth growing function of the droplet size'),
 dict(id='C28-step-for-hour', property='C28',
      edits=[(P + 'lib_gnome/OSSMTimeValue_c.cpp', "timeToAverage = currentTime - j * 3600;",
              "timeToAverage = currentTime - j * runningAverageTimeStep;")],
      demo=LIGHT + '''
from gnome.environment.wind import Wind
from gnome.environment.running_average import RunningAverage
from gnome.basic_types import datetime_value_2d
ts = np.array([(BASE + dt.timedelta(minutes=30 * i), (float(i), 0.)) for i in range(13)], dtype=datetime_value_2d)
ra = RunningAverage(Wind(timeseries=ts, units='m/s', coord_sys='uv'), past_hours_to_average=3)
u = ra.timeseries['value'][-1][0]
assert abs(u - 9.) < 1e-6, u
''', needs='a wind with entries less than an hour apart',
      breaks='the average covers fewer hours than asked for'),
 dict(id='C29-caller-array', property='C29',
      edits=[(G + 'utilities/transforms.py', "    rq = np.array(r_theta)\n", "    rq = r_theta\n")],
      demo=LIGHT + '''
from gnome.utilities.transforms import r_theta_to_uv_wind as f
a = np.array([[10., 350.], [5., 20.]])
b = a.copy()
f(a)
f(a)
assert np.all(a == b), a
''', needs='the same array converted twice', breaks='the caller\'s array is changed by the conversion'),
 dict(id='C30-plain-mean', property='C30',
      edits=[(G + 'ops/aggregated_data.py', "            np.sum(sc['mass']/sc['mass'].sum() * sc['viscosity'])", "            np.mean(sc['viscosity'])")],
      demo=COMMON + '''
from gnome.ops import aggregated_data as A
from gnome.weatherers import Evaporation
w = Evaporation(water=None, wind=None)
sc = SpillContainer()
sp = Spill(release=PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=2), substance=OIL, amount=10., units='kg')
sc.spills += sp
at = dict(sp.all_array_types)
from gnome.array_types import gat
for k in ('density', 'viscosity', 'mass'):
    at[k] = gat(k)
sc.prepare_for_model_run(at, 900)
sc.release_elements(BASE, BASE + dt.timedelta(seconds=900), environment={'water': None})
sc['mass'][:] = [1., 3.]
sc['viscosity'][:] = [1., 2.]
sc['density'][:] = 900.
A.aggregate(sc, 0)
assert abs(sc.mass_balance['avg_viscosity'] - 1.75) < 1e-9, sc.mass_balance
''', needs='elements of different masses and viscosities',
      breaks='the average viscosity is not that of the oil'),
 dict(id='C31-strongest-wind', property='C31',
      edits=[(G + 'environment/waves.py', "            U = np.where(U < self.pseudo_wind(wave_height),",
              "            U = np.where(U.max() < self.pseudo_wind(wave_height),")],
      demo=LIGHT + '''
from gnome.environment import Waves, Water
class W:
    def at(self, p, t, *a, **k):
        return np.array([[0.5], [30.]])
w = Waves(wind=W(), water=Water(wave_height=2., units={'wave_height': 'm'}))
e = w.get_emulsification_wind(np.zeros((2, 3)), BASE)
assert e.reshape(-1)[0] > 5., e
''', needs='given waves and a wind that is stronger than they imply at some points only',
      breaks='emulsification at the calm points ignores the waves'),
 dict(id='C35-first-ones', property='C35',
      edits=[(G + 'maps/tideflat_map.py', "status_codes[in_water_idx[now_dry]] = oil_status.on_tideflat",
              "status_codes[in_water_idx[:now_dry.sum()]] = oil_status.on_tideflat")],
      demo=COMMON + '''
from gnome.maps.map import GnomeMap
from gnome.maps.tideflat_map import TideflatMap, SimpleTideflat
sp = Spill(release=PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=3), amount=10., units='kg')
sc = SpillContainer()
sc.spills += sp
sc.prepare_for_model_run(sp.all_array_types, 900)
sc.release_elements(BASE, BASE + dt.timedelta(seconds=900), environment={'water': None})
sc['next_positions'][:] = [[0., 0., 0.], [5., 5., 0.], [0., 0., 0.]]
m = TideflatMap(GnomeMap(), SimpleTideflat([(4, 4), (6, 4), (6, 6), (4, 6)], BASE, BASE + dt.timedelta(hours=6)))
m.beach_elements(sc, BASE)
assert list(sc['status_codes']) == [2, 32, 2], sc['status_codes']
''', needs='a dry element after a wet one', breaks='the wrong elements settle on the flat'),
]
