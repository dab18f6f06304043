"""C31: water keeps its values in any unit; waves follow the wind, the fetch or the given height"""
import math

from symex.case import Case, Property
from props.lib import BASE

INFO = {
    'functions': ['gnome.environment.water.Water.get', 'gnome.environment.water.Water.set',
                  'gnome.environment.water.Water.units', 'gnome.environment.water.Temperature.at',
                  'gnome.environment.waves.Waves.get_value', 'gnome.environment.waves.Waves.get_emulsification_wind',
                  'gnome.environment.waves.Waves.peak_wave_period', 'gnome.utilities.weathering.adios2.Adios2',
                  'gnome.utilities.weathering.lehr_simecek.LehrSimecek.whitecap_fraction'],
    'bounds': '1 and 2 points, any wind up to 400 m/s, no fetch or any fetch up to 1000 km, no wave height or any up to 40 m '
              '(in m, ft or km), salinity 0, 20 and 35; water temperature, sediment load, wave height and fetch of any '
              'value in every unit of a list of three to four',
    'outside': 'float64 rounding; powers and square roots are uninterpreted functions with sign, monotonicity and bound '
               'axioms, refined at counterexamples; density from the seawater library (concrete values only)',
    'stubs': ['a wind with arbitrary speed per point'],
    'assumptions': [],
}

G = 9.80665
# factor and offset to the SI unit: si = (x + offset) * factor
UNITS = {
    'temperature': {'K': (1.0, 0.0), 'C': (1.0, 273.16), 'F': (5.0 / 9, 459.67)},
    'sediment': {'kg/m^3': (1.0, 0.0), 'mg/l': (1e-3, 0.0), 'g/m^3': (1e-3, 0.0)},
    'wave_height': {'m': (1.0, 0.0), 'ft': (0.3048, 0.0), 'km': (1000.0, 0.0), 'cm': (0.01, 0.0)},
    'fetch': {'m': (1.0, 0.0), 'ft': (0.3048, 0.0), 'km': (1000.0, 0.0), 'mi': (1609.344, 0.0)},
}
BOTH = {'temperature': 'Temperature', 'sediment': 'Sediment', 'wave_height': 'WaveHeight'}


def si(attr, unit, x):
    f, o = UNITS[attr][unit]
    return (x + o) * f


def units(cx, attr):
    from gnome.environment import Water
    names = sorted(UNITS[attr])
    # the constructor warns about odd temperatures and computes nothing else
    u = cx.choice('unit', names)
    lo, hi = {'temperature': (30, 80), 'sediment': (0, 500), 'wave_height': (0, 30), 'fetch': (0, 1e6)}[attr]
    if attr == 'temperature':
        lo, hi = {'K': (272, 310), 'C': (-1, 37), 'F': (30, 99)}[u]
    x = cx.real('x', lo, hi)
    how = cx.choice('how', ['init', 'set', 'assign'])
    if how == 'init':
        w = Water(units={attr: u}, **{attr: x})
    elif how == 'set':
        w = Water()
        w.set(attr, x, u)
    else:
        w = Water()
        w.units = {attr: u}
        setattr(w, attr, x)
    tol = 0.02 if attr == 'temperature' else 1e-9
    s = si(attr, u, x)
    cx.observe('si', w.get(attr))
    cx.prove(cx.close(w.get(attr), s, tol, 1e-6), 'water: read in the units of the model')
    cx.prove(cx.close(w.get(attr, u), x, 1e-9), 'water: read back as it was given')
    cx.prove(cx.close(getattr(w, attr), x, 1e-9), 'water: the attribute is in the units of the user')
    v = cx.choice('as', names)
    f, o = UNITS[attr][v]
    cx.prove(cx.close(w.get(attr, v), s / f - o, 0.04 if attr == 'temperature' else 1e-6, 1e-6),
             'water: read in another unit')
    other = Water()
    cx.prove(other.units['temperature'] == 'K' and other.units['wave_height'] == 'm'
             and other.units['sediment'] == 'kg/m^3' and other.units['fetch'] == 'm',
             'water: the units of one do not change those of another')
    for a in UNITS:
        if a != attr:
            cx.prove(w.units[a] == other.units[a], 'water: other units stay')
    if attr in BOTH:
        pts = [[0.0, 0.0, 0.0], [1.0, 2.0, 0.0]]
        at = getattr(w, BOTH[attr]).at(pts, BASE, units=v)
        for i in range(2):
            cx.prove(cx.close(at[i], w.get(attr, v), 1e-9), 'water: the same everywhere')
    try:
        w.set(attr, 1.0, 'psu')
        cx.prove(False, 'water: a wrong unit is refused')
    except ValueError:
        cx.prove(cx.close(w.get(attr), s, tol, 1e-6), 'water: a refused change changes nothing')


class AnyWind(object):
    def __init__(self, cx, v):
        self.cx, self.v = cx, v

    def at(self, points, time, *a, **k):
        return self.cx.array([[x] for x in self.v])


PTS = [[0.0, 0.0, 0.0], [1.0, 2.0, 0.0]]


def wave(cx, n=1, fetch=False, part='all'):
    """no wave height given: from the wind"""
    from gnome.environment import Water, Waves
    U = [cx.real('U%d' % i, 0, 400) for i in range(n)]
    F = None
    kw = {}
    if fetch:
        u = cx.choice('unit', ['m', 'km'])
        F = cx.real('fetch', 0, 1e6 if u == 'm' else 1e3)
        kw = dict(fetch=F, units={'fetch': u})
        F = si('fetch', u, F)
    sal = cx.choice('salinity', [35.0, 0.0, 20.0]) if part == 'white' else 35.0
    water = Water(salinity=sal, **kw)
    w = Waves(wind=AnyWind(cx, U), water=water)
    H, T, Wf, De = w.get_value(PTS[:n], BASE)
    E = w.get_emulsification_wind(PTS[:n], BASE)
    rho = float(water.get('density'))
    Tm = 0.03742857 * sal + 2.54
    for i in range(n):
        h = H[i]
        cx.observe('H%d' % i, h)
        cx.prove(cx.all([h >= 0, h <= 30]), 'waves: height between 0 and 30 m')
        cx.prove(cx.close(De[i], 0.0034 * rho * G * h * h, 1e-6, 1e-9), 'waves: energy from the height')
        cx.prove(cx.all([Wf[i] >= 0, Wf[i] <= 1]), 'waves: whitecaps are a fraction')
        f = cx.ite(U[i] < 4, 0.0125 * U[i], 0.01 * U[i] + 0.01) / Tm / 2
        cx.prove(cx.close(Wf[i], cx.mn(f, 1.0), 1e-9), 'waves: whitecaps from the wind and the salinity')
        cx.prove(cx.close(E[i][0], U[i], 1e-9), 'waves: emulsification by the wind')
        if bool(U[i] < 4.433049525859078):
            ws = 0.71 * U[i] ** 1.23
        else:
            ws = U[i]
        full = 0.243 * ws * ws / G
        if fetch:
            if bool(F < 2268 * ws * ws):
                full = 0.0016 * cx.fn('sqrt', F / G) * ws
        cx.prove(cx.close(h, cx.mn(0.707 * full, 30.0), 1e-6, 1e-9), 'waves: height from the wind and the fetch')
        if F is None:
            cx.prove(cx.implies(U[i] == 0, h == 0), 'waves: none without wind')


def given(cx, n=1):
    """a wave height is given"""
    from gnome.environment import Water, Waves
    U = [cx.real('U%d' % i, 0, 100) for i in range(n)]
    u = cx.choice('unit', ['m', 'ft', 'cm'])
    x = cx.real('height', 0, {'m': 40, 'ft': 120, 'cm': 4000}[u])
    water = Water(wave_height=x, units={'wave_height': u})
    hs = si('wave_height', u, x)
    w = Waves(wind=AnyWind(cx, U), water=water)
    H, T, Wf, De = w.get_value(PTS[:n], BASE)
    E = w.get_emulsification_wind(PTS[:n], BASE)
    v = cx.fn('sqrt', G * hs / 0.243)
    if bool(v < 4.433049525859078):
        v = (v / 0.71) ** 0.813008
    Tm = 0.03742857 * 35.0 + 2.54
    for i in range(n):
        cx.observe('H%d' % i, H[i])
        cx.prove(cx.close(H[i], 0.707 * hs, 1e-6), 'given waves: rms of the given height')
        f = cx.ite(v < 4, 0.0125 * v, 0.01 * v + 0.01) / Tm / 2
        cx.prove(cx.close(Wf[i], cx.mn(f, 1.0), 1e-6), 'given waves: whitecaps of the wind that raises them')
        cx.prove(cx.close(E[i][0], cx.mx(U[i], v), 1e-6), 'given waves: the stronger of the winds')
        cx.prove(E[i][0] >= U[i], 'given waves: at least the wind')


def inverse(cx):
    """the wind that belongs to a height raises waves of that height"""
    from gnome.utilities.weathering import Adios2
    U = cx.real('U', 4.5, 40)
    h = Adios2.wave_height(cx.array([U]), None)
    v = Adios2.wind_speed_from_height(cx.array([h[0] / 0.707]))
    cx.prove(cx.close(v[0], U, 1e-6), 'inverse: wind to height and back')
    V = cx.real('V', 0, 400)
    a, b = Adios2.wave_height(cx.array([U]), None)[0], Adios2.wave_height(cx.array([V]), None)[0]
    cx.prove(cx.implies(cx.all([V >= U]), b >= a), 'inverse: stronger wind, higher waves')


PROP = Property('C31', [Case('units-' + a, units, dict(attr=a)) for a in sorted(UNITS)] + [
    Case('wave', wave), Case('wave-2', wave, dict(n=2)), Case('white', wave, dict(part='white')),
    Case('fetch', wave, dict(fetch=True)), Case('given', given), Case('given-2', given, dict(n=2)),
    Case('inverse', inverse),
])
