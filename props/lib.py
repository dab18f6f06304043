"""Shared pieces of the harnesses: a small real SpillContainer with two-component oil"""
import datetime as dt

import numpy as _np

BASE = dt.datetime(2015, 1, 1)

_oil = {}


def small_oil(ncomp=2, **other):
    """a real GnomeOil with few pseudo-components (concrete ones are built once)"""
    if other or ncomp not in _oil:
        from gnome.spills.gnome_oil import GnomeOil
        mf = {1: [1.0], 2: [0.6, 0.4], 3: [0.5, 0.3, 0.2]}[ncomp]
        bp = [400.0, 700.0, 900.0][:ncomp]
        mw = [120.0, 300.0, 500.0][:ncomp]
        cd = [800.0, 900.0, 1000.0][:ncomp]
        kw = dict(
            name='tiny', api=30., pour_point=250., solubility=0.0,
            bullwinkle_fraction=0.2, emulsion_water_fraction_max=0.9,
            densities=[880., 860.], density_ref_temps=[273.15, 300.15],
            density_weathering=[0., 0.], kvis=[1e-4, 5e-5],
            kvis_ref_temps=[273.15, 300.15], kvis_weathering=[0., 0.],
            mass_fraction=mf, boiling_point=bp, molecular_weight=mw,
            component_density=cd, k0y=2.024e-06)
        kw.update(other)
        oil = GnomeOil(**kw)
        if other:
            return oil
        _oil[ncomp] = oil
    return _oil[ncomp]


def make_sc(cx, n, substance, array_types=(), amount=1000.0, units='kg', uncertain=False):
    """a SpillContainer with n released elements, through the public API"""
    from gnome.spill_container import SpillContainer
    from gnome.spills.spill import Spill
    from gnome.spills.release import PointLineRelease
    from gnome.array_types import gat
    rel = PointLineRelease(release_time=BASE, start_position=(0., 0., 0.),
                           num_elements=n)
    sp = Spill(release=rel, substance=substance, amount=amount, units=units)
    sc = SpillContainer(uncertain=uncertain)
    sc.spills += sp
    ats = {}
    for a in array_types:
        if isinstance(a, str):
            ats[a] = gat(a)
        else:
            ats.update(a)
    ats.update(sp.all_array_types)
    sc.prepare_for_model_run(ats, 900)
    sc.release_elements(BASE, BASE + dt.timedelta(seconds=900),
                        environment={'water': None})
    assert len(sc) == n
    return sc


def set_array(sc, name, value):
    """overwrite the values of an existing data array in place"""
    a = sc[name]
    if a.ndim == 1:
        for i in range(len(a)):
            a[i] = value[i]
    else:
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                a[i, j] = value[i][j]


def sym_masses(cx, sc, n, k, lo=0.0, hi=1e6, strict=False, prefix='m'):
    """arbitrary non-negative component masses; mass = their sum.
    returns (components, masses) before"""
    comps = [[cx.real('%s_%d_%d' % (prefix, i, j), lo, hi, lo_strict=strict)
              for j in range(k)] for i in range(n)]
    tot = []
    for i in range(n):
        t = comps[i][0]
        for j in range(1, k):
            t = t + comps[i][j]
        tot.append(t)
    set_array(sc, 'mass_components', comps)
    set_array(sc, 'mass', tot)
    return comps, tot


def total(xs):
    t = 0
    for x in xs:
        t = t + x
    return t
