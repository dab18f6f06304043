import sys; sys.path.insert(0, "/verif")
from tools.seedspecs.c01 import COMMON
R = 'py_gnome/gnome/spills/release.py'
S = 'py_gnome/gnome/spills/spill.py'
RUN = COMMON + '''
def run(sp, t0, ts, steps, sc=None):
    sc = sc or SpillContainer()
    if not len(sc.spills):
        sc.spills += sp
    sc.prepare_for_model_run(sp.all_array_types, ts)
    half = dt.timedelta(seconds=ts / 2)
    env = {'water': None}
    sc.release_elements(t0, t0, environment=env)
    t = t0
    for i in range(steps):
        nt = t + dt.timedelta(seconds=ts)
        sc.release_elements(t, t + half, environment=env)
        sc.release_elements(nt - half, nt, environment=env)
        t = nt
    return sc
'''
SEEDS = [
 dict(id='C07-last-knot', property='C07',
      edits=[(R, """            t.data[-1] = self.end_release_time
""", """            if self.release_duration % ts == 0:
                t.data[-1] = self.end_release_time
""")],
      demo=RUN + '''
sp = Spill(release=PointLineRelease(release_time=BASE, end_release_time=BASE + dt.timedelta(seconds=1000),
           start_position=(0., 0., 0.), num_elements=10), amount=10., units='kg')
sc = run(sp, BASE, 900, 1)
sc.release_elements(BASE + dt.timedelta(seconds=900), BASE + dt.timedelta(seconds=1350), environment={'water': None})
assert len(sc) == 10, len(sc)
''', needs='a continuous release whose duration is not a whole number of time steps',
      breaks='the release goes on until the end of the last step instead of its end time'),
 dict(id='C07-late-start', property='C07',
      edits=[(R, """        if self.release_duration == 0 and start_time != end_time: # special case for instantaneous spill with release after model start
            if self.release_time <= end_time and self.release_time>=start_time:
                 start_time = end_time = self.release_time""",
              """        if self.release_duration == 0 and start_time != end_time: # special case for instantaneous spill with release after model start
            if start_time < self.release_time < end_time:
                 start_time = end_time = self.release_time""")],
      demo=RUN + '''
sp = Spill(release=PointLineRelease(release_time=BASE + dt.timedelta(seconds=450),
           start_position=(0., 0., 0.), end_position=(1., 2., 0.), num_elements=5), amount=10., units='kg')
sc = run(sp, BASE, 900, 1)
x = sc['positions'][:, 0]
assert len(sc) == 5 and abs(x[0]) < 1e-9 and abs(x[-1] - 1) < 1e-9, x
''', needs='an instantaneous line release whose time falls exactly on a release interval boundary',
      breaks='all elements are put at the end of the line'),
 dict(id='C08-units-order', property='C08',
      edits=[(S, """        except nucos.InvalidUnitError:  # must be volume
            vol = rel_mass / self.substance.standard_density # kg/m3
            amount = nucos.convert('m^3', self.units, vol)
""", """        except nucos.InvalidUnitError:  # must be volume
            vol = rel_mass / max(self.substance.standard_density, 1000.0) # kg/m3
            amount = nucos.convert('m^3', self.units, vol)
""")],
      demo=COMMON + '''
sp = Spill(release=PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=2),
           substance=OIL, amount=100., units='bbl')
assert abs(sp.amount - 100) < 1e-6, sp.amount
''', needs='a substance lighter than water and an amount in volume units',
      breaks='the amount does not read back as given, and uncertainty scaling changes the mass'),
 dict(id='C08-share-of-steps', property='C08',
      edits=[(R, """        self._mass_per_le = self.release_mass * 1.0 / max_release
""", """        self._mass_per_le = self.release_mass * 1.0 / max(max_release, num_ts + 1)
""")],
      demo=RUN + '''
sp = Spill(release=PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=1),
           amount=10., units='kg')
sc = run(sp, BASE, 900, 1)
assert abs(sc['mass'].sum() - 10.) < 1e-9, sc['mass']
''', needs='fewer elements than release steps plus one',
      breaks='part of the amount is never released'),
]
