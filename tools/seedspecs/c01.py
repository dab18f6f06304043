COMMON = '''
import datetime as dt, sys
import numpy as np
import gnome
from gnome.spills.gnome_oil import GnomeOil
from gnome.spill_container import SpillContainer
from gnome.spills.spill import Spill
from gnome.spills.release import PointLineRelease

BASE = dt.datetime(2015, 1, 1)
OIL = GnomeOil(name='tiny', api=30., pour_point=250., solubility=0.0,
    bullwinkle_fraction=0.2, emulsion_water_fraction_max=0.9,
    densities=[880., 860.], density_ref_temps=[273.15, 300.15],
    density_weathering=[0., 0.], kvis=[1e-4, 5e-5],
    kvis_ref_temps=[273.15, 300.15], kvis_weathering=[0., 0.],
    mass_fraction=[0.6, 0.4], boiling_point=[400., 700.], molecular_weight=[120., 300.],
    component_density=[800., 900.], k0y=2.024e-06)


def make_sc(w, n=4, amount=1000.):
    sc = SpillContainer()
    sp = Spill(release=PointLineRelease(release_time=BASE, start_position=(0., 0., 0.),
               num_elements=n), substance=OIL, amount=amount, units='kg')
    sc.spills += sp
    at = dict(w.array_types)
    at.update(sp.all_array_types)
    sc.prepare_for_model_run(at, 900)
    sc.release_elements(BASE, BASE + dt.timedelta(seconds=900), environment={'water': None})
    w.prepare_for_model_run(sc)
    return sc


def step(w, sc, t, s=900):
    w.prepare_for_model_step(sc, s, t)
    w.weather_elements(sc, s, t)
'''
F = 'py_gnome/gnome/weatherers/cleanup.py'
SEEDS = [
 dict(id='C01-skim-books-demand', property='C01',
      edits=[(F, """            rm_mass_frac = min(rm_mass / total_mass, 1.0)
            rm_mass = rm_mass_frac * total_mass

            # if elements""", """            rm_mass_frac = min(rm_mass / total_mass, 1.0)

            # if elements""")],
      demo=COMMON + '''
from gnome.weatherers import Skimmer
w = Skimmer(amount=50000., units='kg', efficiency=1.0, active_range=(BASE, BASE + dt.timedelta(hours=1)))
sc = make_sc(w)
before = sc['mass'].sum()
for i in range(4):
    step(w, sc, BASE + dt.timedelta(seconds=900 * i))
lost = before - sc['mass'].sum()
assert abs(lost - sc.mass_balance['skimmed']) < 1e-6 * before, (lost, sc.mass_balance)
''', needs='a skimmer asked for more oil than the marked elements hold',
      breaks='the skimmed amount booked exceeds what left the elements'),
 dict(id='C01-burn-all-mass', property='C01',
      edits=[(F, """            burn_mass = data['mass'].sum()

            rm_mass""", """            burn_mass = data['mass'].sum()
            oil_mass = sc['mass'].sum()

            rm_mass"""),
             (F, """            if rm_mass > burn_mass:
                rm_mass = burn_mass
""", """            if rm_mass > oil_mass:
                rm_mass = burn_mass
""")],
      demo=COMMON + '''
from gnome.weatherers import Burn
w = Burn(area=2.0, thickness=1.0, active_range=(BASE, BASE + dt.timedelta(days=9)), efficiency=0.3)
sc = make_sc(w, n=20, amount=10000.)
sc['frac_water'][:] = 0.0
w.prepare_for_model_step(sc, 900, BASE)
marked = sc['fate_status'] == gnome.basic_types.fate.burn
# another process takes nearly all of the marked oil
for a in ('mass', 'mass_components'):
    sc[a][marked] *= 0.001
sc.reset_fate_dataview()
before = sc['mass'].sum()
for i in range(60):
    step(w, sc, BASE + dt.timedelta(seconds=900 * i))
    assert np.all(sc['mass_components'] >= -1e-9), sc['mass_components']
lost = before - sc['mass'].sum()
assert abs(lost - sc.mass_balance['burned']) < 1e-6 * before, (lost, sc.mass_balance)
''', needs='boomed oil that another process has mostly removed while other oil remains',
      breaks='elements end with negative mass, more is burned than was boomed'),
 dict(id='C02-step-start-only', property='C02',
      edits=[(F, """        if (model_time + timedelta(seconds=time_step) > self.active_range[0]
                and self.active_range[1] > model_time):""",
"""        if (model_time + timedelta(seconds=time_step) > self.active_range[0]
                and self.active_range[1] > model_time + timedelta(seconds=1)):""")],
      demo=COMMON + '''
from gnome.weatherers import Skimmer
w = Skimmer(amount=100., units='kg', efficiency=1.0, active_range=(BASE, BASE + dt.timedelta(seconds=901)))
sc = make_sc(w, amount=1e6)
for i in range(4):
    step(w, sc, BASE + dt.timedelta(seconds=900 * i))
assert abs(sc.mass_balance['skimmed'] - 100.) < 1e-6, sc.mass_balance
''', needs='an active range that ends within a second after a step boundary',
      breaks='the last piece of the active range is dropped, so less than asked for is removed'),
 dict(id='C02-chem-rate-gross', property='C02',
      edits=[(F, """            self._rate = (rm_total_mass_si /
                          (self.active_range[1] - self.active_range[0])
                          .total_seconds())""",
"""            self._rate = (rm_total_mass_si /
                          max((self.active_range[1] - self.active_range[0])
                          .total_seconds(), time_step))""")],
      demo=COMMON + '''
from gnome.weatherers import ChemicalDispersion
w = ChemicalDispersion(fraction_sprayed=0.2, efficiency=1.0, active_range=(BASE, BASE + dt.timedelta(seconds=300)))
sc = make_sc(w, amount=1000.)
for i in range(3):
    step(w, sc, BASE + dt.timedelta(seconds=900 * i))
assert abs(sc.mass_balance['chem_dispersed'] - 200.) < 1e-6, sc.mass_balance
''', needs='a dispersant operation shorter than the time step',
      breaks='less oil is dispersed than was sprayed'),
]
