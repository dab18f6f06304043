import sys; sys.path.insert(0, "/verif")
from tools.seedspecs.c01 import COMMON
from tools.seedspecs.more import LIGHT, G, P
CONTAINER = COMMON + '''
def container(n):
    sp = Spill(release=PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=n), amount=10., units='kg')
    sc = SpillContainer()
    sc.spills += sp
    sc.prepare_for_model_run(sp.all_array_types, 900)
    sc.release_elements(BASE, BASE + dt.timedelta(seconds=900), environment={'water': None})
    return sc
'''
MODEL = COMMON + '''
import tempfile, os, shutil, json
from gnome.model import Model
from gnome.movers import SimpleMover
'''
GRID = COMMON + '''
class Field:
    _gnome_unit = None
    def __init__(self, rows):
        self.rows = np.array(rows, dtype=float)
    def at(self, points, time, **kw):
        return self.rows.reshape(len(points), -1).copy()
PTS = np.array([[0., 10., 5.], [1., 20., 6.]])
'''
SEEDS = [
 dict(id='C04-off-map-forgotten', property='C04',
      edits=[(G + 'maps/map.py', """        sc.mass_balance['off_maps'] += \\
            sc['mass'][sc['status_codes'] == oil_status.off_maps].sum()


    def beach""", """        sc.mass_balance['off_maps'] = \\
            sc['mass'][sc['status_codes'] == oil_status.off_maps].sum()


    def beach""")],
      demo=MODEL + '''
from gnome.maps.map import GnomeMap
m = Model(start_time=BASE, duration=dt.timedelta(hours=2), time_step=900,
          map=GnomeMap(map_bounds=[(-1, -1), (-1, 1), (1, 1), (1, -1)]))
for x in (0.9, 0.7):
    m.spills += Spill(release=PointLineRelease(release_time=BASE, start_position=(x, 0., 0.), num_elements=2), amount=10., units='kg')
m.movers += SimpleMover((12., 0., 0.))      # 0.097 degrees a step
for i in range(9):
    m.step()
sc = list(m.spills.items())[0]
mb = sc.mass_balance
assert len(sc) == 0
assert abs(mb['off_maps'] - 20.) < 1e-6, mb
''', needs='elements that leave the map at different steps',
      breaks='only the oil that left in the last step counts as off the map'),
 dict(id='C05-last-strip', property='C05',
      edits=[(G + 'maps/map.py', """            genned_layer = np.zeros((int(math.ceil(float(base_w) / ratio)),
                                     int(math.ceil(float(base_h) / ratio))),""",
              """            genned_layer = np.zeros((max(base_w // ratio, 1),
                                     max(base_h // ratio, 1)),""")],
      demo=LIGHT + '''
from gnome.maps.map import RasterMap
from gnome.utilities.projections import NoProjection
from gnome.cy_gnome.cy_land_check import check_land_layers
r = np.zeros((40, 16), dtype=np.uint8)
r[36, :] = 1
m = RasterMap(raster=r, projection=NoProjection())
p = np.array([[33, 5]], dtype=np.int32)
e = np.array([[39, 5]], dtype=np.int32)
s = np.array([2], dtype=np.int16)
l = np.zeros((1, 2), dtype=np.int32)
check_land_layers(m.layers, m.ratios, p, e, s, l)
assert s[0] == 3 and list(e[0]) == [36, 5], (s, e)
''', needs='a raster whose size is no multiple of the coarse cells, and a move within its last cells',
      breaks='land in the last strip of the raster is no barrier'),
 dict(id='C06-others-water', property='C06',
      edits=[(G + 'maps/map.py', """            # need to be refloated
            spill_container['positions'][r_idx] = \\
                spill_container['last_water_positions'][r_idx]
            spill_container['status_codes'][r_idx] = oil_status.in_water

    def _check_land_layers""", """            # need to be refloated
            spill_container['positions'][r_idx] = \\
                spill_container['last_water_positions'][:len(r_idx)]
            spill_container['status_codes'][r_idx] = oil_status.in_water

    def _check_land_layers""")],
      demo=CONTAINER + '''
from gnome.maps.map import RasterMap
from gnome.utilities.projections import NoProjection
r = np.zeros((20, 20), dtype=np.uint8)
r[10, :] = 1
m = RasterMap(raster=r, projection=NoProjection(), refloat_halflife=0.)
sc = container(3)
sc['last_water_positions'][:] = [[1., 1., 0.], [9., 2., 0.], [9., 3., 0.]]
sc['positions'][:] = [[1., 1., 0.], [10., 2., 0.], [10., 3., 0.]]
sc['status_codes'][:] = [2, 3, 3]
m.refloat_elements(sc, 900)
assert np.all(sc['positions'] == [[1., 1., 0.], [9., 2., 0.], [9., 3., 0.]]), sc['positions']
''', needs='beached elements that come after floating ones', breaks="refloated elements go to the others' last water positions"),
 dict(id='C18-even-vertex', property='C18',
      edits=[(G + 'utilities/geometry/c_point_in_polygon.c', "        if ( ((vertices[2*i+1]>point[1]) != (vertices[2*j+1]>point[1])) &&\n            (point[0] < (vertices[2*j]-vertices[2*i]) * (point[1]-vertices[2*i+1]) / (vertices[2*j+1]-vertices[2*i+1]) + vertices[2*i]) )\n            c = !c;\n    }\n    return c;\n}\n\n// Version that takes x and y in sep",
              "        if ( ((vertices[2*i+1]>point[1]) != (vertices[2*j+1]>point[1])) &&\n            (i == 0 || point[0] != vertices[2*i]) && (point[0] < (vertices[2*j]-vertices[2*i]) * (point[1]-vertices[2*i+1]) / (vertices[2*j+1]-vertices[2*i+1]) + vertices[2*i]) )\n            c = !c;\n    }\n    return c;\n}\n\n// Version that takes x and y in sep")],
      demo=LIGHT + '''
from gnome.utilities.geometry.cy_point_in_polygon import points_in_poly
p = np.array([[0., 0.], [4., 0.], [2., 3.]])
assert points_in_poly(p, (2., 1., 0.))
assert points_in_poly(p, (2.001, 1., 0.))
''', needs='a point straight below or above a vertex', breaks='points in line with a vertex are taken for outside'),
 dict(id='C25-one-layer', property='C25',
      edits=[(P + 'lib_gnome/RandomVertical_c.cpp', """		rand = GetRandomFloat(-1.0, 1.0);
		deltaPoint.z = rand*verticalDiffusionCoefficient;
		
		z = z + deltaPoint.z;	// add move to previous move if any
		totalLEDepth = (*theLE).z+z;""", """		rand = GetRandomFloat(-1.0, 1.0);
		deltaPoint.z = rand*verticalDiffusionCoefficient;
		
		z = z + deltaPoint.z;	// add move to previous move if any
		totalLEDepth = (*theLE).z+deltaPoint.z;""")],
      demo=CONTAINER + '''
from gnome.movers import RandomMover3D
import gnome.utilities.rand as rand
rand.seed(1)
m = RandomMover3D(vertical_diffusion_coef_above_ml=5, vertical_diffusion_coef_below_ml=0.11)
sc = container(500)
sc['positions'][:, 2] = 0.5
m.prepare_for_model_run()
m.prepare_for_model_step(sc, 900, BASE)
d = m.get_move(sc, 900, BASE)
z = sc['positions'][:, 2] + d[:, 2]
assert np.all(z > 0), z.min()
''', needs='a draw that takes an element near the surface above it', breaks='elements are thrown out of the water'),
 dict(id='C26-same-as-step', property='C26',
      edits=[(G + 'utilities/rand.py', "            if np.any(persistence[u_mask] != abs(time_step)):", "            if np.all(persistence[u_mask] != abs(time_step)):")],
      demo=LIGHT + '''
from gnome.utilities.rand import random_with_persistance as f
np.random.seed(1)
a = np.zeros(2000)
p = np.full(2000, 225.)
p[0] = 900.
f(np.full(2000, 1.), np.full(2000, 3.), a, p, 900.)
# the range is halved for 225 s
assert a[1:].min() >= 1.5 and a[1:].max() <= 2.5, (a.min(), a.max())
''', needs='elements of different persistence, one of them equal to the time step',
      breaks='windages are drawn from the wrong range'),
 dict(id='C32-density-order', property='C32',
      edits=[(G + 'spills/gnome_oil.py', "        rho_idxs0[rho_idxs0 > 0] -= 1\n", "        rho_idxs0[rho_idxs0 == len(obj_list) - 1] -= 1\n")],
      demo=COMMON + '''
o = GnomeOil(**dict(name='x', api=30., pour_point=250., solubility=0.0,
    bullwinkle_fraction=0.2, emulsion_water_fraction_max=0.9,
    densities=[900., 880., 870.], density_ref_temps=[273.15, 293.15, 313.15],
    density_weathering=[0., 0., 0.], kvis=[1e-4, 5e-5],
    kvis_ref_temps=[273.15, 300.15], kvis_weathering=[0., 0.],
    mass_fraction=[0.6, 0.4], boiling_point=[400., 700.], molecular_weight=[120., 300.],
    component_density=[800., 900.], k0y=2.024e-06))
for t, r in ((273.15, 900.), (283.15, 890.), (293.15, 880.), (303.15, 875.), (313.15, 870.)):
    assert abs(o.density_at_temp(t) - r) < 0.2, (t, o.density_at_temp(t))
''', needs='three measured densities and a temperature between the first two',
      breaks='the density is extrapolated from the wrong pair of measurements'),
 dict(id='C34-same-name', property='C34',
      edits=[(G + 'persist/base_schema.py', """                        if subjson['id'] in refs:
                            # this name has already been added somewhere else,
                            # and MAY have a different name if there was a
                            # naming conflict
                            refname = refs[subjson['id']]
                        json_[n][i] = refname""", """                        if refname in refs.values():
                            # this name has already been added somewhere else
                            json_[n][i] = refname
                            continue
                        if subjson['id'] in refs:
                            refname = refs[subjson['id']]
                        json_[n][i] = refname""")],
      demo=MODEL + '''
m = Model(start_time=BASE, duration=dt.timedelta(hours=2), time_step=900)
m.movers += SimpleMover((1., 0., 0.), name='wind')
m.movers += SimpleMover((0., 2., 0.), name='wind')
d = tempfile.mkdtemp()
try:
    m.save(saveloc=os.path.join(d, 'm.gnome'))
    n = Model.load(os.path.join(d, 'm.gnome'))
    v = [tuple(float(x) for x in mv.velocity) for mv in n.movers]
    assert v == [(1., 0., 0.), (0., 2., 0.)], v
finally:
    shutil.rmtree(d)
''', needs='two objects with the same name in one collection', breaks='the second comes back as the first'),
 dict(id='C36-first-spill', property='C36',
      edits=[(G + 'outputters/json.py', "            spill_num = sc['spill_num'].tolist()\n            # break", "            spill_num = np.repeat(sc['spill_num'][:1], len(mass)).tolist()\n            # break")],
      demo=MODEL + '''
from gnome.outputters import SpillJsonOutput
m = Model(start_time=BASE, duration=dt.timedelta(hours=1), time_step=900)
for i in range(2):
    m.spills += Spill(release=PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=2), amount=10., units='kg')
m.outputters += SpillJsonOutput()
r = m.step()['SpillJsonOutput']['certain'][0]
assert r['spill_num'] == [0, 0, 1, 1], r
''', needs='more than one spill', breaks="all elements are given the first element's spill number"),
 dict(id='C15-south', property='C15',
      edits=[(G + 'utilities/projections.py', "        self.max_lat = latitude.max()\n\n        # pixels =", "        self.max_lat = latitude[-1]\n\n        # pixels =")],
      demo=LIGHT + '''
from gnome.utilities.projections import RectangularGridProjection as R
p = R([0., 1., 3.], [4., 2., 1.])
assert np.all(p.to_lonlat(p.to_pixel([[0.5, 3., 0.]])) == [[0.5, 3.]])
''', needs='latitudes from north to south', breaks='latitudes are all taken to the southern edge'),
 dict(id='C33-ran-out', property='C33',
      edits=[(G + 'weatherers/roc.py', "                sc.mass_balance['boomed'] += actual_collected\n", "                sc.mass_balance['boomed'] += collected\n")],
      demo=MODEL + '''
from gnome.weatherers import ROC_Burn
from gnome.spills.sample_oils import _sample_oils
from gnome.spills.gnome_oil import GnomeOil
from gnome.spill_container import SpillContainer
w = ROC_Burn(offset=5280, boom_length=500, boom_draft=24, speed=0.75, throughput=0.75, burn_efficiency_type=1,
             timeseries=[(BASE, BASE + dt.timedelta(hours=12))])
sc = SpillContainer()
sc.spills += Spill(substance=GnomeOil('oil_ans_mp'), release=PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=2), amount=40., units='kg')
types = dict(w.array_types)
from gnome.array_types import gat
for k in ('mass', 'mass_components', 'area', 'frac_water', 'density', 'viscosity', 'fate_status'):
    types[k] = gat(k)
sc.prepare_for_model_run(types)
sc.release_elements(BASE, BASE + dt.timedelta(minutes=15))
from gnome.basic_types import fate
sc['area'][:] = 5000.
sc['frac_water'][:] = 0.
sc['density'][:] = 900.
sc['fate_status'][:] = fate.surface_weather
sc.reset_fate_dataview()
m0 = sc['mass'].sum()
w.prepare_for_model_run(sc)
w.prepare_for_model_step(sc, 3600, BASE)
w.weather_elements(sc, 3600, BASE)
took = m0 - sc['mass'].sum()
booked = sc.mass_balance['boomed'] + sc.mass_balance['burned']
assert took > 0 and abs(took - booked) < 1e-6, (took, booked)
''', needs='a boom with room for more oil than is left', breaks='more is booked as boomed than was on the water'),
 dict(id='C12-along-kept', property='C12',
      edits=[(G + 'movers/py_current_movers.py', "        self.is_first_step = True\n        self._uncertainty_list = np.zeros((0,)+self.shape, dtype=np.float64)\n        self.time_uncertainty_was_set = 0\n\n        return", "        self.is_first_step = True\n        if self._uncertainty_list is None:\n            self._uncertainty_list = np.zeros((0,)+self.shape, dtype=np.float64)\n            self.time_uncertainty_was_set = 0\n\n        return")],
      demo=MODEL + '''
from gnome.movers.py_current_movers import CurrentMover
from gnome.environment.environment import Environment
class Flow(Environment):
    _ref_as = 'current'
    data_start = BASE
    data_stop = BASE + dt.timedelta(days=9)
    def at(self, pos, time, *a, **k):
        return np.array([[0.5, 0., 0.]] * len(pos)).reshape(-1, 3)
def run(first, then):
    m = Model(start_time=BASE, duration=dt.timedelta(hours=1), time_step=900, uncertain=True)
    m.make_default_refs = False
    c = CurrentMover(current=Flow(), uncertain_along=first, uncertain_cross=0.)
    m.movers += c
    m.spills += Spill(release=PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=4), amount=10., units='kg')
    m.rewind()
    for i in range(4):
        m.step()
    c.uncertain_along = then
    m.rewind()
    for i in range(4):
        m.step()
    return list(m.spills.items())[1]['positions'].copy()
a, b = run(0.5, 0.125), run(0.125, 0.125)
assert np.allclose(a, b, rtol=0, atol=1e-9), (a, b)
''', needs='an uncertain model run again within the uncertainty duration after a change of its uncertainty', breaks='the old uncertainty is used'),
 dict(id='C01-first-rate', property='C01',
      edits=[(G + 'weatherers/manual_beaching.py', "            dt = min(time_remain, dt_for_curr_rate)\n            rm_mass += self._rate[t_int] * dt\n            time_remain -= dt\n", "            dt = min(time_remain, dt_for_curr_rate)\n            rm_mass += self._rate[t_int] * time_remain\n            time_remain = 0\n")],
      demo=MODEL + '''
from gnome.weatherers import Beaching
from gnome.spills.gnome_oil import GnomeOil
from gnome.spill_container import SpillContainer
at = lambda s: BASE + dt.timedelta(seconds=s)
w = Beaching(active_range=(BASE, at(2700)), units='kg', timeseries=[(at(1350), 3.), (at(2700), 12.)])
sc = SpillContainer()
sc.spills += Spill(substance=GnomeOil('oil_ans_mp'), release=PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=2), amount=40., units='kg')
from gnome.array_types import gat
types = dict(w.array_types)
for k in ('mass', 'mass_components', 'fate_status'):
    types[k] = gat(k)
sc.prepare_for_model_run(types)
from gnome.environment import Water
sc.release_elements(BASE, at(900), environment={'water': Water(288.)})
w.prepare_for_model_run(sc)
for i in range(3):
    w.prepare_for_model_step(sc, 900, at(900 * i))
    sc.reset_fate_dataview()
    w.weather_elements(sc, 900, at(900 * i))
assert abs(sc.mass_balance['observed_beached'] - 15.) < 1e-6, sc.mass_balance
''', needs='a step that contains the time of an observation', breaks='the amount of the next observation is beached at the rate of the one before'),
 dict(id='C37-turned-twice', property='C37',
      edits=[(G + 'environment/environment_objects.py', "            value[:, 0] = x\n            value[:, 1] = y\n\n        if points.shape[-1] == 3: #depth", "            value[:, 0] = x\n            value[:, 1] = x * np.sin(angs) + value[:, 1] * np.cos(angs)\n\n        if points.shape[-1] == 3: #depth")],
      demo=GRID + '''
from gnome.environment.environment_objects import GridCurrent
c = GridCurrent(name='c', variables=[Field([0.3, -0.2]), Field([0.1, 0.4])], angle=Field([0.5, 0.]))
got = c.at(PTS, BASE, extrapolate=True)
assert abs(got[0][1] - (0.3 * np.sin(0.5) + 0.1 * np.cos(0.5))) < 1e-9, got
''', needs='a grid that is turned against north', breaks='the northward current is wrong on a turned grid'),
 dict(id='C37-flat-ice', property='C37',
      edits=[(G + 'environment/environment_objects.py', "            vels[:] = vels[:] + (ice_v - water_v) * ice_vel_factor\n", "            vels[:, :2] = vels[:, :2] + (ice_v - water_v)[:, :2] * ice_vel_factor\n")],
      demo=GRID + '''
from gnome.environment.environment_objects import IceAwareCurrent
c = IceAwareCurrent(name='c', variables=[Field([0.3, -0.2]), Field([0.1, 0.4]), Field([0., 0.])], ice_concentration=Field([0.5, 0.9]),
                    ice_velocity=Field([[0.1, 0.1, 0.02], [0.2, 0.2, 0.02]]))
got = c.at(PTS, BASE, extrapolate=True)
assert abs(got[1][2] - 0.02) < 1e-9, got
''', needs='ice with a vertical velocity', breaks='the vertical part is that of the water'),
]
