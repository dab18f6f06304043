"""C08 amount: what a spill's amount means, in any unit"""
import datetime as dt
from symex.case import Case, Property
from props.lib import small_oil, total, BASE

MASS = {'kg': 1.0, 'tons': 907.18474, 'g': 0.001, 'metric ton': 1000.0, 'lb': 0.45359237}
VOL = {'bbl': 0.158987294928, 'm^3': 1.0, 'gal': 0.003785411784, 'l': 0.001, 'ft^3': 0.028316846592}

INFO = {
 'bounds': 'amount any real 0..1e9, five mass and five volume units, non-weathering substance and a '
           'two-component oil, uncertainty scale any real, one to three elements (six in '
           'thorough)',
 'outside': 'float64 rounding, other units',
 'stubs': [],
 'assumptions': [],
}


def spill(cx, oil, amount, units, n=2, **kw):
    from gnome.spills.spill import Spill
    from gnome.spills.release import PointLineRelease
    r = PointLineRelease(release_time=BASE, start_position=(0., 0., 0.), num_elements=n)
    return Spill(release=r, substance=small_oil(2) if oil else None, amount=amount, units=units, **kw)


def release(cx, sp, ts=900):
    from gnome.spill_container import SpillContainer
    sc = SpillContainer()
    sc.spills += sp
    sc.prepare_for_model_run(sp.all_array_types, ts)
    sc.release_elements(BASE, BASE + dt.timedelta(seconds=ts), environment={'water': None})
    return sc


def kg(cx, sp, units, amount):
    if units in MASS:
        return amount * MASS[units]
    return amount * VOL[units] * sp.substance.standard_density


def units(cx, oil=False, n=3):
    n = cx.choice('n', list(range(1, n + 1)))
    u = cx.choice('units', sorted(MASS) + sorted(VOL))
    a = cx.real('amount', 0, 1e9)
    sp = spill(cx, oil, a, u, n)
    want = kg(cx, sp, u, a)
    cx.observe('kg', sp.get_mass())
    cx.prove(cx.close(sp.get_mass(), want, 1e-6, 1e-6), 'amount: the mass in kg')
    cx.prove(cx.close(sp.amount, a, 1e-6, 1e-6), 'amount: reads back as given')
    # reading in another unit shows the same oil
    u2 = cx.choice('units2', ['kg', 'bbl', 'm^3'])
    sp.units = u2
    cx.prove(cx.close(sp.get_mass(), want, 1e-6, 1e-6), 'amount: changing units keeps the mass')
    cx.prove(cx.close(kg(cx, sp, u2, sp.amount), want, 1e-6, 2e-6), 'amount: other units, same oil')
    sc = release(cx, sp)
    cx.prove(len(sc) == n, 'amount: released')
    m = total([sc['mass'][i] for i in range(n)])
    cx.prove(cx.close(m, want, 1e-6, 1e-6), 'amount: the elements hold it all')
    for i in range(n):
        cx.prove(cx.close(sc['mass'][i] * n, want, 1e-6, 1e-6), 'amount: in equal shares')
        if oil:
            mf = sp.substance.mass_fraction
            for j in range(len(mf)):
                cx.prove(cx.close(sc['mass_components'][i, j], sc['mass'][i] * float(mf[j]), 1e-6, 1e-6),
                         'amount: components are the substance fractions')
            cx.prove(cx.close(total([sc['mass_components'][i, j] for j in range(len(mf))]),
                              sc['mass'][i], 1e-6, 1e-6), 'amount: components sum to the mass')


def negative(cx):
    a = cx.real('amount', -1e6, 1e6)
    u = cx.choice('units', ['kg', 'bbl'])
    ok = True
    try:
        sp = spill(cx, False, a, u)
    except ValueError:
        ok = False
    if a < 0:
        cx.prove(not ok, 'amount: negative is refused')
    else:
        cx.prove(ok, 'amount: non-negative is accepted')
        b = cx.real('again', -1e6, 1e6)
        try:
            sp.amount = b
            good = True
        except ValueError:
            good = False
        if b < 0:
            cx.prove(not good, 'amount: negative is refused when set')
            cx.prove(cx.close(sp.amount, a, 1e-6, 1e-6), 'amount: a refused value changes nothing')
        else:
            cx.prove(good, 'amount: non-negative is accepted when set')
            cx.prove(cx.close(sp.amount, b, 1e-6, 1e-6), 'amount: set and read back')


def uncertainty(cx):
    a = cx.real('amount', 0, 1e6)
    s = cx.real('scale', -1, 2)
    u = cx.choice('units', ['kg', 'bbl'])
    d = cx.choice('dir', ['up', 'down', None])
    sp = spill(cx, False, a, u, amount_uncertainty_scale=s)
    r = sp.set_amount_uncertainty(d)
    if d is None or not bool(s > 0) or not bool(s <= 1):
        cx.prove(not r, 'uncertainty: refused')
        cx.prove(cx.close(sp.amount, a, 1e-6, 1e-6), 'uncertainty: amount unchanged when refused')
    else:
        f = 1 + s * 2 / 3 if d == 'up' else 1 - s * 2 / 3
        cx.prove(r, 'uncertainty: applied')
        cx.prove(cx.close(sp.amount, a * f, 1e-6, 1e-6), 'uncertainty: scaled by two thirds of the scale')


PROP = Property('C08', [
    Case('units', units, dict()),
    Case('units-oil', units, dict(oil=True)),
    Case('negative', negative, dict()),
    Case('uncertainty', uncertainty, dict()),
    Case('units-oil-4', units, dict(oil=True, n=6), tier='thorough', budget=800),
])
