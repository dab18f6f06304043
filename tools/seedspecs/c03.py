import sys; sys.path.insert(0, "/verif")
from tools.seedspecs.c01 import COMMON
D = 'py_gnome/gnome/weatherers/natural_dispersion.py'
E = 'py_gnome/gnome/weatherers/evaporation.py'
SEEDS = [
 dict(id='C03-sediment-over', property='C03',
      edits=[(D, """            if (d_disp_out + d_sed_out) > mass_elem:
               ratio""", """            if max(d_disp_out, d_sed_out) > mass_elem:
               ratio""")],
      demo=COMMON + '''
from gnome.weatherers import NaturalDispersion
class Water:
    kinematic_viscosity = 1e-6
    density = 1025.
    def get(self, a, unit=None): return {'sediment': S}.get(a, 288.)
class Waves:
    water = Water()
    def get_value(self, p, t):
        n = len(p)
        return (np.full(n, H), np.full(n, 5.), np.full(n, .25), np.full(n, 70.))
S = 0.5
for H in (1e-5, 3e-5, 1e-4, 1e-3, 1e-2, .1, 1.):
  for area in (100., 1e4, 1e6, 2e6):
    for mass in (300., 1e4, 1.5e5, 3e5):
      w = NaturalDispersion(waves=Waves(), water=Waves.water)
      sc = make_sc(w, n=2, amount=mass)
      sc['area'][:] = area
      sc['density'][:] = 870.
      sc['viscosity'][:] = 1e-6
      sc['frac_water'][:] = 0.0
      before = sc['mass'].sum()
      step(w, sc, BASE)
      b = sc.mass_balance['natural_dispersion'] + sc.mass_balance['sedimentation']
      assert abs(before - sc['mass'].sum() - b) <= 1e-6 * before, (S, area, mass, b)
''', needs='dispersion and sedimentation that together, but neither alone, exceed the mass of an element',
      breaks='more oil is booked as dispersed and sedimented than the elements lose'),
 dict(id='C03-trace-dropped', property='C03',
      edits=[(E, """            data['mass_components'][:] = mass_remain
""", """            # do not keep numerically meaningless traces of light components
            mass_remain[mass_remain < 1e-4] = 0.0
            data['mass_components'][:] = mass_remain
""")],
      demo=COMMON + '''
from gnome.weatherers import Evaporation
from gnome.environment import Water
class W:
    def at(self, p, t, *a, **k): return np.full((len(p), 1), 5.)
w = Evaporation(wind=W(), water=Water(temperature=288.15, units={'temperature': 'K'}))
sc = make_sc(w, n=2, amount=2e-4)
sc['area'][:] = 1e-6
sc['vol_frac_le_st'][:] = 1.0
sc['frac_water'][:] = 0.0
before = sc['mass'].sum()
step(w, sc, BASE)
assert abs(before - sc['mass'].sum() - sc.mass_balance['evaporated']) < 1e-9 * before, sc.mass_balance
''', needs='a component whose remaining mass falls below the trace threshold',
      breaks='mass disappears without being booked as evaporated'),
]
