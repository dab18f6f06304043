"""C34: what is saved loads back the same."""
import datetime as dt
import os
import shutil
import tempfile

from symex.case import Case, Property
from props.lib import BASE, small_oil

INFO = {
 'functions': ['GnomeId.save, load, serialize, deserialize, update_from_dict, __eq__, to_dict, new_from_dict',
               'ObjType.serialize/deserialize/save/load, ObjTypeSchema, GeneralGnomeObjectSchema',
               'the schemas and constructors of movers, weatherers, environment objects, releases, substances, spills, '
               'distributions, outputters, maps and Model'],
 'bounds': 'one object of each class (with the objects it refers to), every numeric and time setting any value in its '
           'range, switches on and off, active ranges bounded or open, settings given to the constructor or assigned '
           'later; zip files and web form',
 'outside': 'objects that read data files (grids, tides, netCDF); the names of NetCDFOutput and BinaryOutput (made from the file name); GnomeOil property arrays (saved to 8 digits); appearance',
 'stubs': ['colander numbers and times and json leaves: identities on symbolic values (symex/colenc.py)'],
 'assumptions': ['numbers and times read back from their text as they were (shortest repr)'],
}
SCRATCH = None


class K:
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a


def r(lo, hi):
    return K('r', lo, hi)


def i(lo, hi):
    return K('i', lo, hi)


FLAG, RANGE, TIME, P3, DELTA = K('flag'), K('range'), K('time'), K('p3'), K('delta')


def ch(*a):
    return K('ch', *a)


def obj(name):
    return K('obj', name)


PROC = dict(on=FLAG, active_range=RANGE)
MV, WE, EN, RE = 'gnome.movers.', 'gnome.weatherers.', 'gnome.environment.', 'gnome.spills.release.'
DI = 'gnome.utilities.distributions.'
OU, OUT = 'gnome.outputters.', dict(output_timestep=DELTA, output_zero_step=FLAG, output_start_time=TIME, on=FLAG)
SPECS = {
    'SimpleMover': (MV + 'SimpleMover', dict(velocity=P3, uncertainty_scale=r(0, 1), **PROC)),
    'RandomMover': (MV + 'RandomMover', dict(diffusion_coef=r(0, 1e6), uncertain_factor=r(1, 4), **PROC)),
    'RandomMover3D': (MV + 'RandomMover3D', dict(
        horizontal_diffusion_coef_above_ml=r(0, 1e6), horizontal_diffusion_coef_below_ml=r(0, 1e6),
        vertical_diffusion_coef_above_ml=r(0, 100), vertical_diffusion_coef_below_ml=r(0, 100),
        mixed_layer_depth=r(0, 100), surface_is_allowed=FLAG, **PROC)),
    'RiseVelocityMover': (MV + 'RiseVelocityMover', dict(**PROC)),
    'PointWindMover': (MV + 'PointWindMover', dict(
        wind=obj('Wind'), uncertain_duration=r(0, 100), uncertain_time_delay=K('quarter', 0, 400),
        uncertain_speed_scale=r(0, 5), uncertain_angle_scale=r(0, 3), **PROC)),
    'WindMover': ('gnome.movers.py_wind_movers.WindMover', dict(
        wind=obj('Wind'), scale_value=r(0, 5), uncertain_duration=r(0, 100), uncertain_time_delay=r(0, 100),
        uncertain_speed_scale=r(0, 5), uncertain_angle_scale=r(0, 3), default_num_method=ch('RK2', 'Euler'), **PROC)),
    'CurrentMover': ('gnome.movers.py_current_movers.CurrentMover', dict(
        current=obj('SteadyUniformCurrent'), scale_value=r(0, 5), uncertain_duration=r(0, 100),
        uncertain_time_delay=r(0, 100), uncertain_along=r(0, 1), uncertain_cross=r(0, 1),
        default_num_method=ch('RK4', 'Euler'), **PROC)),
    'SteadyUniformCurrent': (EN + 'environment_objects.SteadyUniformCurrent', dict(speed=r(0, 10), direction=r(0, 359))),
    'Wind': (EN + 'wind.Wind', dict(extrapolation_is_allowed=FLAG, units=ch('m/s', 'knots'), longitude=r(-180, 180),
                                    latitude=r(-80, 80), speed_uncertainty_scale=r(0, 0.5))),
    'Water': (EN + 'water.Water', dict(temperature=r(272, 310), salinity=r(0, 40), sediment=r(0, 50),
                                       wave_height=r(0, 10), fetch=r(0, 1e5))),
    'Waves': (EN + 'waves.Waves', dict(wind=obj('Wind'), water=obj('Water'))),
    'Evaporation': (WE + 'Evaporation', dict(water=obj('Water'), wind=obj('Wind'), **PROC)),
    'NaturalDispersion': (WE + 'NaturalDispersion', dict(waves=obj('Waves'), water=obj('Water'),
                                                         algorithm=ch('D&S1988', 'Li2017'), **PROC)),
    'Emulsification': (WE + 'Emulsification', dict(waves=obj('Waves'), **PROC)),
    'Dissolution': (WE + 'Dissolution', dict(waves=obj('Waves'), wind=obj('Wind'), **PROC)),
    'Biodegradation': (WE + 'Biodegradation', dict(waves=obj('Waves'), **PROC)),
    'FayGravityViscous': (WE + 'FayGravityViscous', dict(water=obj('Water'), thickness_limit=r(1e-5, 1), **PROC)),
    'Langmuir': (WE + 'Langmuir', dict(water=obj('Water'), wind=obj('Wind'), **PROC)),
    'HalfLifeWeatherer': (WE + 'HalfLifeWeatherer', dict(**PROC)),
    'Skimmer': (WE + 'Skimmer', dict(amount=r(0, 1e6), units=ch('bbl', 'kg'), efficiency=r(0, 1), water=obj('Water'),
                                     on=FLAG, active_range=K('range', True))),
    'Burn': (WE + 'Burn', dict(area=r(1, 1e6), thickness=r(1, 10), area_units=ch('m^2', 'ft^2'), thickness_units=ch('cm', 'in'),
                               efficiency=r(0, 1), water=obj('Water'), wind=obj('Wind'), on=FLAG,
                               active_range=K('range', True))),
    'ChemicalDispersion': (WE + 'ChemicalDispersion', dict(fraction_sprayed=r(0, 1), efficiency=r(0, 1), waves=obj('Waves'),
                                                           on=FLAG, active_range=K('range', True))),
    'Beaching': (WE + 'Beaching', dict(units=ch('bbl', 'kg'), water=obj('Water'), on=FLAG)),
    'ROC_Burn': (WE + 'ROC_Burn', dict(
        offset=r(100, 1e4), boom_length=r(100, 1000), boom_draft=r(6, 40), speed=r(0.25, 1.0), throughput=r(0.5, 1),
        burn_efficiency_type=ch(1, 2), on=FLAG)),
    'ROC_Skim': (WE + 'ROC_Skim', dict(
        speed=r(0.25, 3), storage=r(10, 5000), swath_width=r(2, 900), group=ch('a', 'b'), throughput=r(0.5, 1),
        nameplate_pump=r(1, 9000), discharge_pump=r(1, 9000), recovery=r(0.25, 1), recovery_ef=r(0.25, 1), decant=r(0, 1),
        decant_pump=r(0, 9000), rig_time=r(1, 100), transit_time=r(1, 100), skim_efficiency_type=K('const', 'meh'), on=FLAG)),
    'ROC_Disperse': (WE + 'ROC_Disperse', dict(
        transit=r(1, 100), pass_length=r(1, 10), dosage=r(1, 40), loading_type=ch('simultaneous', 'separate'),
        disp_oil_ratio=r(5, 50), disp_eff=r(0, 1), on=FLAG)),
    'PointLineRelease': (RE + 'PointLineRelease', dict(release_time=TIME, end_release_time=K('later', 'release_time'),
                                                       start_position=P3, end_position=P3, num_elements=i(1, 1000))),
    'PointLineRelease-n': (RE + 'PointLineRelease', dict(release_time=TIME, end_release_time=K('later', 'release_time'),
                                                         start_position=P3, num_per_timestep=i(1, 1000))),
    'GridRelease': (RE + 'GridRelease', dict(release_time=TIME, bounds=K('const', ((0., 10.), (2., 12.))), resolution=K('const', 2))),
    'SubsurfaceRelease': (RE + 'SubsurfaceRelease', dict(
        release_time=TIME, start_position=P3, num_elements=i(1, 1000), distribution=obj('UniformDistribution'),
        distribution_type=ch('droplet_size', 'rise_velocity'))),
    'UniformDistribution': (DI + 'UniformDistribution', dict(low=r(0, 1), high=r(1, 2))),
    'NormalDistribution': (DI + 'NormalDistribution', dict(mean=r(0, 1), sigma=r(0.1, 2))),
    'LogNormalDistribution': (DI + 'LogNormalDistribution', dict(mean=r(0, 1), sigma=r(0.1, 2))),
    'WeibullDistribution': (DI + 'WeibullDistribution', dict(alpha=ch(0.5, 1.75), lambda_=ch(0.25, 1.5), min_=ch(0.125, 0.5), max_=ch(0.75, 1.125))),
    'NonWeatheringSubstance': ('gnome.spills.substance.NonWeatheringSubstance', dict(
        standard_density=r(700, 1100), windage_range=K('pair', 0, 1), windage_persist=ch(-1, 300))),
    'Spill': ('gnome.spills.spill.Spill', dict(
        release=obj('PointLineRelease'), substance=obj('NonWeatheringSubstance'), amount=r(0, 1e6), units=ch('bbl', 'kg'), on=FLAG)),
    'Spill-grid': ('gnome.spills.spill.Spill', dict(
        release=obj('GridRelease'), substance=obj('NonWeatheringSubstance'), amount=r(0, 1e6), units=ch('bbl', 'kg'))),
    'Spill-subsurface': ('gnome.spills.spill.Spill', dict(
        release=obj('SubsurfaceRelease'), substance=obj('NonWeatheringSubstance'), amount=r(0, 1e6), units=ch('bbl', 'kg'))),
    'WeatheringOutput': ('gnome.outputters.WeatheringOutput', dict(
        output_timestep=DELTA, output_zero_step=FLAG, output_last_step=FLAG, output_single_step=FLAG, output_start_time=TIME, on=FLAG)),
    'OilBudgetOutput': (OU + 'OilBudgetOutput', dict(filename=K('path', 'x.csv'), output_timestep=DELTA, on=FLAG)),
    'NetCDFOutput': (OU + 'NetCDFOutput', dict(filename=K('path', 'x.nc'), which_data=ch('standard', 'most', 'all'),
                                               compress=FLAG, **OUT)),
    'KMZOutput': (OU + 'KMZOutput', dict(filename=K('path', 'x.kmz'), **OUT)),
    'BinaryOutput': (OU + 'BinaryOutput', dict(filename=K('path', 'x.bin'), **OUT)),
    'TrajectoryGeoJsonOutput': (OU + 'TrajectoryGeoJsonOutput', dict(round_data=FLAG, round_to=i(1, 9), output_dir=K('path', ''),
                                                                     **OUT)),
    'GnomeMap': ('gnome.maps.GnomeMap', dict(map_bounds=K('const', ((0., 0.), (0., 1.), (1., 1.), (1., 0.))),
                                             refloat_halflife=r(-1, 10))),
    'Model': ('gnome.model.Model', dict(start_time=K('const', dt.datetime(2015, 1, 1, 3)), duration=K('const', dt.timedelta(hours=7)),
                                        time_step=ch(600, 900), uncertain=FLAG, weathering_substeps=ch(1, 3), cache_enabled=FLAG)),
}
SPECS['GnomeMap'][1].pop('refloat_halflife')


def cls_of(path):
    import importlib
    m, n = path.rsplit('.', 1)
    return getattr(importlib.import_module(m), n)


def value(cx, k, name, vals, made, deep=False):
    if deep and k.kind in ('flag', 'ch'):
        return k.a[-1] if k.a else not name.endswith('_on')
    if k.kind == 'r':
        return cx.real(name, *k.a)
    if k.kind == 'i':
        return cx.int(name, *k.a)
    if k.kind == 'quarter':
        return cx.int(name, *k.a) / 4.0
    if k.kind == 'flag':
        return cx.flag(name)
    if k.kind == 'ch':
        return cx.choice(name, list(k.a))
    if k.kind == 'const':
        return k.a[0]
    if k.kind == 'path':
        return os.path.join(scratch(), k.a[0])
    if k.kind == 'p3':
        return tuple(cx.real('%s_%d' % (name, j), -80 if j < 2 else 0, 80) for j in range(3))
    if k.kind == 'pair':
        a = cx.real(name + '_a', *k.a)
        b = cx.real(name + '_b', *k.a)
        cx.assume(a <= b)
        return (a, b)
    if k.kind == 'time':
        return cx.time(name, 0, 10 ** 6)
    if k.kind == 'delta':
        return dt.timedelta(seconds=cx.choice(name, [900, 5400]))
    if k.kind == 'later':
        t = cx.time(name, 0, 2 * 10 ** 6)
        cx.assume(t >= vals[k.a[0]])
        return t
    if k.kind == 'range':
        from gnome.utilities.inf_datetime import InfDateTime
        a, b = cx.time(name + '_a', 0, 10 ** 6), cx.time(name + '_b', 0, 10 ** 6)
        cx.assume(a < b)
        if k.a:
            return (a, b)
        form = 'both' if deep else cx.choice(name, ['both', 'from', 'to'])
        return (a if form != 'to' else InfDateTime('-inf'), b if form != 'from' else InfDateTime('inf'))
    if k.kind == 'obj':
        if k.a[0] not in made:
            made[k.a[0]] = build(cx, k.a[0], made, deep=True)
        return made[k.a[0]][0]
    raise ValueError(k.kind)


def extra(name, cx, deep):
    """settings that are not plain values"""
    if name == 'Wind':
        ser = [(BASE + dt.timedelta(hours=3 * j), ((3.0 + j if deep else cx.real('speed%d' % j, 1, 30)), [90.0, 225.0][j]))
               for j in range(2)]
        return dict(timeseries=ser)
    if name == 'HalfLifeWeatherer':
        return dict(half_lives=(3600.0, 7200.0))
    if name == 'Beaching':
        return dict(active_range=(BASE, BASE + dt.timedelta(hours=9)),
                    timeseries=[(BASE + dt.timedelta(hours=3 * j + 1), 3.0 + j if deep else cx.real('amount%d' % j, 0, 30))
                                for j in range(2)])
    if name.startswith('ROC'):
        d = dict(timeseries=[(BASE + dt.timedelta(hours=a), BASE + dt.timedelta(hours=a + 2)) for a in (0, 6)])
        if name == 'ROC_Disperse':
            d['platform'] = 'Test Platform'
        return d
    return {}


LATE_NO = {'SimpleMover': ('velocity',), 'Wind': ('units',), 'SubsurfaceRelease': ('distribution', 'distribution_type', 'start_position', 'num_elements', 'release_time'),
           'GridRelease': ('bounds', 'resolution'), 'Skimmer': ('units',), 'Burn': ('area_units', 'thickness_units', 'area', 'thickness'), 'ChemicalDispersion': ('fraction_sprayed',),
           'Spill': ('units',), 'Spill-grid': ('units',), 'Spill-subsurface': ('units',), 'GnomeMap': ('map_bounds',),
           'PointLineRelease': ('release_time', 'end_release_time', 'end_position', 'start_position', 'num_elements'),
           'PointLineRelease-n': ('release_time', 'end_release_time', 'start_position', 'num_per_timestep'),
           'Model': ('start_time', 'duration'),
           'WeibullDistribution': ('alpha', 'lambda_', 'min_', 'max_')}


LATE_INIT = {'SteadyUniformCurrent': dict(speed=1.0, direction=0.0), 'GridRelease': dict(release_time=BASE),
             'PointLineRelease': dict(release_time=BASE)}


def build(cx, name, made, late=False, deep=False, tag=''):
    """(object, its settings)"""
    path, spec = SPECS[name]
    vals = {}
    for a, k in spec.items():
        vals[a] = value(cx, k, '%s%s_%s' % (tag, name, a), vals, made, deep and a != deep)
    ex = extra(name, cx, deep)
    if late:
        hold = [a for a in spec if a not in LATE_NO.get(name, ()) and spec[a].kind not in ('obj', 'path')]
        first = {a: v for a, v in vals.items() if a not in hold or spec[a].kind == 'range' and spec[a].a}
        o = cls_of(path)(**dict(LATE_INIT.get(name, {}), **first), **ex)
        for a in hold:
            setattr(o, a, vals[a])
    else:
        o = cls_of(path)(**vals, **ex)
    return o, vals


def same(cx, a, b):
    import numpy as np
    from gnome.utilities.inf_datetime import InfTime, MinusInfTime
    if isinstance(a, (InfTime, MinusInfTime)) or isinstance(b, (InfTime, MinusInfTime)):
        return type(a) is type(b)
    if isinstance(a, (tuple, list)) or hasattr(a, 'shape') and getattr(a, 'shape', ()):
        if b is None or len(a) != len(b):
            return False
        return cx.all([same(cx, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, os.PathLike) or isinstance(b, os.PathLike):
        return str(a) == str(b)
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a == b and type(a) == type(b)
    if isinstance(a, dt.timedelta) or isinstance(b, dt.timedelta):
        return a == b
    if hasattr(a, 'replace') or hasattr(b, 'replace'):
        return a == b
    return cx.close(a, b, 1e-9, 1e-9)


def scratch():
    global SCRATCH
    if SCRATCH is None or not os.path.isdir(SCRATCH[0]) or SCRATCH[1] != os.getpid():
        import atexit
        d = tempfile.mkdtemp(prefix='verif-c34-')
        SCRATCH = (d, os.getpid())
        tempfile.tempdir = d
        atexit.register(shutil.rmtree, d, True)
    return SCRATCH[0]


def there_and_back(cx, o, how):
    import gnome.persist.base_schema as bs
    if how == 'web':
        js = bs.json
        return type(o).deserialize(js.loads(js.dumps(o.serialize())))
    d = scratch()
    try:
        fn = os.path.join(d, 'it.gnome')
        o.save(fn)
        return type(o).load(fn)
    finally:
        for x in os.listdir(d):
            p = os.path.join(d, x)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)


def check(cx, name, o, vals, p, made, seen, label):
    path, spec = SPECS[name]
    cx.prove(type(p) is type(o), label + ': the class')
    if type(p) is not type(o):
        return
    cx.prove(p.name == o.name, label + ': the name')
    for a, v in vals.items():
        if spec[a].kind == 'obj':
            sub = spec[a].a[0]
            q = getattr(p, a)
            cx.prove(q is not None and q is not v, label + ': %s is there and its own' % a)
            if q is None:
                continue
            if sub in seen:
                cx.prove(seen[sub] is q, label + ': %s shared as before' % a)
                continue
            seen[sub] = q
            check(cx, sub, v, made[sub][1], q, made, seen, label + '.' + a)
        else:
            cx.prove(same(cx, getattr(o, a), getattr(p, a)), label + ': %s' % a)
    if name == 'Wind':
        x, y = o.get_wind_data(), p.get_wind_data()
        cx.prove(len(x) == len(y), label + ': the series')
        for j in range(len(x)):
            cx.prove(cx.all([x[j]['time'] == y[j]['time'], same(cx, x[j]['value'], y[j]['value'])]), label + ': the series')
    if name == 'Beaching':
        x, y = o.timeseries, p.timeseries
        cx.prove(len(x) == len(y) and len(y) == 2, label + ': the series')
        for j in range(2):
            cx.prove(cx.all([x[j]['time'] == y[j]['time'], same(cx, x[j]['value'], y[j]['value'])]), label + ': the series')
        cx.prove(same(cx, o.active_range, p.active_range), label + ': active_range')
    if name.startswith('ROC'):
        cx.prove(same(cx, o.timeseries, p.timeseries), label + ': the periods of activity')
        cx.prove(same(cx, o.active_range, p.active_range), label + ': active_range')
    if name == 'HalfLifeWeatherer':
        cx.prove(same(cx, (3600.0, 7200.0), tuple(p.half_lives)), label + ': half lives')


def trip(cx, name, late=None):
    how = cx.choice('how', ['web', 'file'])
    made = {}
    lt = cx.flag('late') if late is None else late
    o, vals = build(cx, name, made, lt)
    for a, v in vals.items():
        if SPECS[name][1][a].kind != 'obj' and a != 'resolution':
            got = getattr(o, a)
            if name == 'Burn' and a == 'active_range':     # the end is when the oil is burnt
                v, got = v[0], got[0]
            cx.prove(same(cx, v, got), '%s: %s as given' % (name, a))
    if name not in ('NetCDFOutput', 'BinaryOutput'):       # named after their file
        o.name = cx.choice('name', ['mine', 'a/b'])
    p = there_and_back(cx, o, how)
    check(cx, name, o, vals, p, made, {}, '%s back' % name)
    cx.prove(bool(o == p) and not bool(o != p), '%s: equal to the original' % name)
    cx.observe('ok', 1)


NO_UPDATE = {'Burn': ('active_range',), 'Spill': ('units',), 'SubsurfaceRelease': ('release_time',)}


def update(cx, name):
    """one setting sent by the client changes that setting only"""
    made = {}
    spec = SPECS[name][1]
    up = cls_of(SPECS[name][0])._schema().get_nodes_by_attr('update')
    plain = [a for a in spec if a in up and spec[a].kind not in ('obj', 'const', 'path') and a not in NO_UPDATE.get(name, ())]
    a = cx.choice('which', plain)
    o, vals = build(cx, name, made, deep=a)
    q, vals2 = build(cx, name, made, deep=a, tag='new_')
    if name.startswith('PointLineRelease'):
        cx.assume(vals['release_time'] <= vals2['end_release_time'])
        cx.assume(vals2['release_time'] <= vals['end_release_time'])
    whole = cx.flag('whole')
    before = {b: getattr(o, b) for b in vals}
    new = getattr(q, a)
    d = q.serialize()
    d = dict(o.serialize(), **{a: d[a]}) if whole else {a: d[a]}
    got = o.update_from_dict(d)
    cx.prove(same(cx, getattr(o, a), new), '%s: %s is the new one' % (name, a))
    for b in vals:
        if b != a and not (name == 'Burn' and b == 'active_range'):
            cx.prove(getattr(o, b) is before[b] if spec[b].kind == 'obj' else same(cx, getattr(o, b), before[b]),
                     '%s: %s stays when %s is updated' % (name, b, a))
    if spec[a].kind in ('r', 'i', 'ch', 'flag'):
        if not bool(got):
            cx.prove(same(cx, before[a], new), '%s: a change of %s is reported' % (name, a))
    cx.observe('ok', 1)


def model(cx):
    """a model with its parts, some of them used twice"""
    import gnome.model
    how = cx.choice('how', ['web', 'file'])
    made = {}
    m, vals = build(cx, 'Model', made, False)
    parts = {}
    for n, coll in (('PointWindMover', 'movers'), ('RandomMover', 'movers'), ('Spill', 'spills'), ('Evaporation', 'weatherers'),
                    ('WeatheringOutput', 'outputters')):
        made[n] = build(cx, n, made, False, True)
        c = getattr(m, coll)
        c += made[n][0]
        parts[n] = (coll, [x for x in range(len(c)) if c[x] is made[n][0]][0])
    for n in ('Wind', 'Water'):
        m.environment += made[n][0]
        parts[n] = ('environment', [x for x in range(len(m.environment)) if m.environment[x] is made[n][0]][0])
    p = there_and_back(cx, m, how)
    for a, v in vals.items():
        cx.prove(same(cx, v, getattr(p, a)), 'model: %s' % a)
    seen = {}
    for n, (coll, k) in parts.items():
        c, d = getattr(m, coll), getattr(p, coll)
        cx.prove(len(c) == len(d), 'model: as many %s' % coll)
        if n in seen:
            cx.prove(seen[n] is d[k], 'model: the %s of the collection is the one used' % n)
        else:
            seen[n] = d[k]
            check(cx, n, made[n][0], made[n][1], d[k], made, seen, 'model.' + coll)
    cx.prove(p.num_time_steps == m.num_time_steps, 'model: as many steps')
    cx.observe('ok', 1)


def client(cx):
    """the client sends back a model with something changed"""
    import copy
    import gnome.persist.base_schema as bs
    js = bs.json
    made = {}
    m, vals = build(cx, 'Model', made, False, True)
    for n, coll in (('PointWindMover', 'movers'), ('RandomMover', 'movers'), ('SimpleMover', 'movers'), ('Spill', 'spills'),
                    ('Skimmer', 'weatherers')):
        made[n] = build(cx, n, made, False, True)
        c = getattr(m, coll)
        c += made[n][0]
    m.environment += made['Wind'][0]
    what = cx.choice('what', ['nothing', 'value', 'remove', 'reorder', 'add', 'spill', 'step', 'wind'])
    part = cx.flag('part')
    v = cx.real('v', 1, 64)
    d = js.loads(js.dumps(m.serialize()))
    movers = list(m.movers)
    want = list(movers)
    if what == 'value':
        d['movers'][1]['diffusion_coef'] = v
        key = 'movers'
    elif what == 'remove':
        del d['movers'][0]
        del want[0]
        key = 'movers'
    elif what == 'reorder':
        d['movers'] = d['movers'][1:] + d['movers'][:1]
        want = want[1:] + want[:1]
        key = 'movers'
    elif what == 'add':
        e = copy.copy(d['movers'][1])
        e.pop('id')
        e['diffusion_coef'] = v
        d['movers'].append(e)
        key = 'movers'
    elif what == 'spill':
        d['spills'][0]['amount'] = v
        key = 'spills'
    elif what == 'step':
        d['time_step'] = 1800
        key = 'time_step'
    elif what == 'wind':
        d['environment'][0]['longitude'] = d['movers'][0]['wind']['longitude'] = v
        key = 'environment'
    else:
        key = 'movers'
    if part:
        d = {k: x for k, x in d.items() if k in (key, 'id', 'obj_type')}
    old = {'movers': movers, 'spills': list(m.spills), 'weatherers': list(m.weatherers), 'environment': list(m.environment),
           'outputters': list(m.outputters)}
    coef = made['RandomMover'][0].diffusion_coef
    amount = made['Spill'][0].amount
    lon = made['Wind'][0].longitude
    got = m.update_from_dict(d)
    now = list(m.movers)
    cx.prove(len(now) == len(want) + (what == 'add'), 'client: as many movers as sent')
    cx.prove(all(any(x is y for y in now[:len(want)]) for x in want) and all(x is y for x, y in zip(want, now)),
             'client: the movers sent, in their order')
    for c in ('spills', 'weatherers', 'environment', 'outputters'):
        x = list(getattr(m, c))
        cx.prove(len(x) == len(old[c]) and all(a is b for a, b in zip(x, old[c])), 'client: the %s stay' % c)
    cx.prove(same(cx, v if what == 'value' else coef, made['RandomMover'][0].diffusion_coef), 'client: the diffusion')
    cx.prove(same(cx, v if what == 'spill' else amount, made['Spill'][0].amount), 'client: the amount')
    cx.prove(same(cx, v if what == 'wind' else lon, made['Wind'][0].longitude), 'client: the wind')
    cx.prove(made['PointWindMover'][0].wind is made['Wind'][0], 'client: the wind is the one in use')
    cx.prove(m.time_step == (1800 if what == 'step' else vals['time_step']), 'client: the time step')
    cx.prove(m.weathering_substeps == vals['weathering_substeps'] and m.uncertain == vals['uncertain'], 'client: the rest')
    if what == 'add':
        cx.prove(not any(now[-1] is x for x in movers) and type(now[-1]) is type(movers[1]), 'client: a new mover')
        cx.prove(same(cx, v, now[-1].diffusion_coef), 'client: the new mover as sent')
    if what in ('remove', 'reorder', 'add', 'step'):
        cx.prove(bool(got), 'client: the change is reported')
    cx.observe('ok', 1)


SMALL = [n for n in SPECS if n not in ('Model',)]
UPD = [n for n in SPECS if n not in ('Model', 'GridRelease', 'Spill-grid', 'Spill-subsurface', 'GnomeMap', 'Waves')]
PROP = Property('C34', [Case(n, trip, dict(name=n), max_paths=4000) for n in SMALL] + [
    Case('Model', trip, dict(name='Model')), Case('whole-model', model), Case('client', client),
] + [Case('update-' + n, update, dict(name=n), max_paths=4000) for n in UPD
], encoders=['cyenc', 'colenc'], pyx=['gnome.cy_gnome.cy_mover', 'gnome.cy_gnome.cy_random_mover', 'gnome.cy_gnome.cy_random_mover_3d',
        'gnome.cy_gnome.cy_rise_velocity_mover', 'gnome.cy_gnome.cy_wind_mover', 'gnome.cy_gnome.cy_ossm_time',
        'gnome.utilities.geometry.cy_point_in_polygon'])
