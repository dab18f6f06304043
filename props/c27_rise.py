"""C27: rising droplets - the speed from the droplet size, and the move from the speed"""
import datetime as dt

from symex.case import Case, Property
from props.lib import make_sc, set_array, BASE

INFO = {
 'functions': ['RiseVelocityMover.get_move', 'CyRiseVelocityMover, rise_velocity_from_drop_size (Cython)',
               'RiseVelocity_c::get_move, GetMove; get_rise_velocity, GetRiseVelocity (C++, LLVM IR)',
               'InitRiseVelFromDropletSizeFromDist.initialize', 'InitRiseVelFromDist.initialize', 'SubsurfaceRelease'],
 'bounds': 'one to three elements of any status, any depth to 1000 m, any rise speed to 1 m/s up or down, steps of one to '
           '7200 s forward and backward; any droplet from 1 micron to 20 cm, any oil lighter than its water, viscosities of '
           'the water of 1e-6, 1.3e-6 and 8e-7',
 'outside': 'oil heavier than water; normal, log-normal and Weibull distributions',
 'stubs': ['np.random.uniform: any values in its range'],
 'assumptions': ['machine floats as reals; sqrt exact'],
}
STATUS = ['in_water', 'on_land', 'off_maps', 'to_be_removed', 'on_tideflat']


def near(cx, a, b, rel, tol):
    return cx.close(a, b, tol, rel)



def mover(cx, n=1):
    from gnome.basic_types import oil_status
    from gnome.movers import RiseVelocityMover
    sc = make_sc(cx, n, None, ['rise_vel'], uncertain=cx.flag('uncertain'))
    names = [cx.choice('status%d' % i, STATUS if n == 1 else STATUS[:2]) for i in range(n)]
    set_array(sc, 'status_codes', [getattr(oil_status, s) for s in names])
    z = [cx.real('z%d' % i, 0, 1000) for i in range(n)]
    v = [cx.real('v%d' % i, -1, 1) for i in range(n)]
    set_array(sc, 'positions', [[10.0 + i, -20.0, z[i]] for i in range(n)])
    set_array(sc, 'rise_vel', v)
    dts = cx.int('dt', 1, 7200) * (1 if cx.flag('forward') else -1)
    when = cx.time('t', 0, 86400)
    m = RiseVelocityMover()
    m.prepare_for_model_run()
    m.prepare_for_model_step(sc, dts, when)
    delta = m.get_move(sc, dts, when)
    for i in range(n):
        cx.prove(cx.all([delta[i][0] == 0, delta[i][1] == 0]), 'rising moves nothing sideways')
        want = -(v[i] * dts) if names[i] == 'in_water' else 0
        cx.prove(near(cx, delta[i][2], want, 1e-9, 1e-9), 'the depth changes by speed times step, in the water only')
        cx.prove(sc['rise_vel'][i] == v[i], 'speed is untouched')
        cx.observe('z%d' % i, delta[i][2])




def droplet(cx, nu=1e-6, part='stokes', water=1024.0):
    from gnome.cy_gnome.cy_rise_velocity_mover import rise_velocity_from_drop_size
    rho = cx.real('rho', 600, water)
    if part == 'stokes':
        d = cx.real('d', 1e-6, 0.0002 - 1e-9)
    elif part == 'form':
        d = cx.real('d', 0.01 + 1e-9, 0.2)
    else:
        d = cx.real('d', 0.0002, 0.01)
    v = cx.array([0.0] * 2)
    rise_velocity_from_drop_size(v, cx.array([rho, rho]), cx.array([d, 0.0001]), nu, water)
    g = 9.8 * (water - rho) / water
    cx.prove(near(cx, v[1] * 18 * nu, g * 0.0001 * 0.0001, 1e-9, 1e-18), 'each droplet on its own')
    if part == 'stokes':
        cx.prove(near(cx, v[0] * 18 * nu, g * d * d, 1e-9, 1e-18), 'small droplets follow the law of Stokes')
    elif part == 'form':
        cx.prove(v[0] >= 0, 'lighter oil rises')
        cx.prove(near(cx, v[0] * v[0], 8 * g * d / 3, 1e-9, 1e-15), 'large droplets follow form drag')
    else:
        lo = g * 0.0002 * 0.0002 / (18 * nu)
        hi = cx.fn('sqrt', 8 * g * 0.01 / 3)
        x = (d - 0.0002) / (0.01 - 0.0002)
        s0, s1 = lo * 24.5, hi * 0.49
        want = (((2 * lo + s0 - 2 * hi + s1) * x + (-3 * lo - 2 * s0 + 3 * hi - s1)) * x + s0) * x + lo
        cx.prove(near(cx, v[0], want, 1e-7, 1e-12), 'in between, the blend')
    cx.observe('v', v[0])


def blend(cx, nu=1e-6, water=1024.0):
    """the blend joins the two laws without a jump, and stays between them"""
    from gnome.cy_gnome.cy_rise_velocity_mover import rise_velocity_from_drop_size
    rho = cx.choice('rho', [600.0, 800.0, 900.0, 960.0, 1000.0, 1020.0, 1023.9])
    d = cx.real('d', 0.0002, 0.01)
    eps = 1e-8
    v = cx.array([0.0] * 5)
    rise_velocity_from_drop_size(v, cx.array([rho] * 5), cx.array([0.0002 - eps, 0.0002 + eps, 0.01 - eps, 0.01 + eps, d]),
                                 nu, water)
    cx.prove(near(cx, v[0], v[1], 2e-3, 1e-12), 'no jump at the end of the Stokes range')
    cx.prove(near(cx, v[2], v[3], 2e-3, 1e-12), 'no jump at the start of form drag')
    cx.prove(cx.all([v[4] >= v[0] * 0.999, v[4] <= v[3] * 1.001]), 'between the two speeds')
    cx.observe('v', v[4])


def release(cx, n=2, kind='droplet_size'):
    from gnome.spill_container import SpillContainer
    from gnome.spills.spill import Spill
    from gnome.spills.release import SubsurfaceRelease
    from gnome.spills.substance import NonWeatheringSubstance
    from gnome.utilities.distributions import UniformDistribution
    from gnome.cy_gnome.cy_rise_velocity_mover import rise_velocity_from_drop_size
    from gnome.array_types import gat
    rho = cx.choice('rho', [850.0, 990.0])
    low, high = cx.choice('range', [(0.00001, 0.0001), (0.02, 0.02), (0.015, 0.0625)])
    rel = SubsurfaceRelease(distribution=UniformDistribution(low=low, high=high), distribution_type=kind, release_time=BASE,
                            end_release_time=BASE + dt.timedelta(seconds=1800), start_position=(0., 0., 100.),
                            num_elements=n * 2)
    sp = Spill(release=rel, substance=NonWeatheringSubstance(standard_density=rho), amount=1000, units='kg')
    sc = SpillContainer()
    sc.spills += sp
    ats = {'rise_vel': gat('rise_vel')}
    ats.update(sp.all_array_types)
    sc.prepare_for_model_run(ats, 900)
    got = 0
    old = []
    for k in range(2):
        new = sc.release_elements(BASE + dt.timedelta(seconds=900 * k), BASE + dt.timedelta(seconds=900 * (k + 1)),
                                  environment={'water': None})
        v = sc['rise_vel']
        cx.prove(len(v) == got + new, 'one speed per element')
        for i in range(got):
            cx.prove(v[i] == old[i], 'earlier elements keep their speed')
        for i in range(got, got + new):
            if kind == 'rise_velocity':
                cx.prove(cx.all([v[i] >= low, v[i] <= high]), 'the speed is drawn from the distribution')
                continue
            d = sc['droplet_diameter'][i]
            cx.prove(cx.all([d >= low, d <= high]), 'the size is drawn from the distribution')
            w = cx.array([0.0] * 1)
            rise_velocity_from_drop_size(w, cx.array([rho]), cx.array([d]), 1e-6, 1020.0)
            cx.prove(near(cx, v[i], w[0], 1e-9, 1e-15), 'the speed is that of the size')
        got += new
        old = [v[i] for i in range(got)]
    cx.prove(got == n * 2, 'all are released')


PROP = Property('C27', [
    Case('mover-%d' % n, mover, dict(n=n)) for n in (1, 2)
] + [Case('mover-3', mover, dict(n=3), tier='thorough')] + [
    Case('%s-%g' % (p, nu), droplet, dict(nu=nu, part=p)) for p in ('stokes', 'form', 'between') for nu in (1e-6, 1.3e-6)
] + [Case('blend-%g' % nu, blend, dict(nu=nu)) for nu in (1e-6, 1.3e-6, 8e-7)] + [
    Case('release-%s' % k, release, dict(kind=k)) for k in ('droplet_size', 'rise_velocity')
], pyx=['gnome.cy_gnome.cy_mover', 'gnome.cy_gnome.cy_rise_velocity_mover'])
