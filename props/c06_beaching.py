"""C06: beaching, refloating and leaving the map"""
from symex.case import Case, Property
from props.lib import make_sc, set_array
from props.c05_land import cells, grid_of

INFO = {
    'functions': ['RasterMap.beach_elements', 'RasterMap.refloat_elements', 'GnomeMap.beach_elements',
                  'GnomeMap._set_off_map_status', 'GnomeMap.resurface_airborne_elements', 'GnomeMap.on_map',
                  'RasterMap.on_land', 'RasterMap.on_land_points', 'RasterMap.in_water',
                  'RasterMap.allowable_spill_position', 'cy_land_check.check_land_layers',
                  'cy_point_in_polygon.points_in_poly', 'c_point_in_poly1',
                  'RegularGridProjection.to_pixel', 'RegularGridProjection.to_lonlat'],
    'bounds': 'every raster of 3 x 2 cells (3 x 1 for pairs of elements), any straight move between points up to one '
              'cell outside of it, any depths and masses, map bounds larger or smaller than the raster, one or two '
              'elements of any of three states; refloat half lives of 0, -1 and 0.5 to 6 hours, time steps of 5 minutes '
              'to a day; any random draw',
    'outside': 'larger rasters (the way of a move over them is decided in C05), more elements',
    'stubs': ['numpy.random: any value of the documented range'],
    'assumptions': ['machine floats as reals: points within rounding error of a cell edge are outside of the claim'],
}

D = 0.5        # cell size, degrees
LON0, LAT0 = 10.0, 40.0
WATER, LAND, OFF = 2, 3, 7


def a_map(cx, G, bounds=None, halflife=1):
    from gnome.maps.map import RasterMap
    from gnome.utilities.projections import RegularGridProjection
    m, n = len(G), len(G[0])
    P = RegularGridProjection(((LON0, LAT0), (LON0 + D * m, LAT0 + D * n)), image_size=(m, n))
    return RasterMap(raster=grid_of(cx, G), projection=P, map_bounds=bounds, refloat_halflife=halflife)


def cell(cx, n, lon, lat):
    """column and row (from the top) of a point"""
    return cx.floor((lon - LON0) / D), cx.floor(n - (lat - LAT0) / D)


def within(cx, n, lon, lat, c):
    """the point lies in the cell"""
    x, y = (lon - LON0) / D, n - (lat - LAT0) / D
    return cx.all([x >= c[0], x < c[0] + 1, y >= c[1], y < c[1] + 1])


def rect(m, n, r):
    """rectangle r cells larger than the raster"""
    a, b, c, d = LON0 - r * D, LON0 + D * (m + r), LAT0 - r * D, LAT0 + D * (n + r)
    return ((a, c), (b, c), (b, d), (a, d))


def inside(cx, m, n, r, lon, lat):
    p = rect(m, n, r)
    return cx.all([lon > p[0][0], lon < p[1][0], lat > p[0][1], lat < p[2][1]])


def outside(cx, m, n, r, lon, lat):
    p = rect(m, n, r)
    return cx.any([lon < p[0][0], lon > p[1][0], lat < p[0][1], lat > p[2][1]])


def point(cx, tag, m, n, r=1):
    lon = cx.real('lon' + tag, LON0 - r * D, LON0 + D * (m + r), lo_strict=True, hi_strict=True)
    lat = cx.real('lat' + tag, LAT0 - r * D, LAT0 + D * (n + r), lo_strict=True, hi_strict=True)
    # off the edges of cells
    return lon, lat


def container(cx, k):
    return make_sc(cx, k, None, ['last_water_positions'])


def beach(cx, m, n, bound, halflife, part):
    from gnome.cy_gnome.cy_land_check import find_first_pixel
    G = cells(cx, m, n)
    M = a_map(cx, G, rect(m, n, bound), halflife)
    sc = container(cx, 1)
    a, b = point(cx, '0', m, n), point(cx, '1', m, n)
    ca, cb = cell(cx, n, *a), cell(cx, n, *b)
    cx.assume(cb[0] >= ca[0] if part & 1 else cb[0] < ca[0])
    cx.assume(cb[1] >= ca[1] if part & 2 else cb[1] < ca[1])
    z0, z1 = cx.real('z0', 0, 50), cx.real('z1', -50, 50)
    w = (LON0 + D / 2, LAT0 + D / 2, 3.0)
    mass = cx.real('mass', 0, 1000)
    off0 = cx.real('off', 0, 1000)
    set_array(sc, 'positions', [(a[0], a[1], z0)])
    set_array(sc, 'next_positions', [(b[0], b[1], z1)])
    set_array(sc, 'last_water_positions', [w])
    set_array(sc, 'mass', [mass])
    sc.mass_balance['off_maps'] = off0
    M.beach_elements(sc)
    r = find_first_pixel(grid_of(cx, G), ca, cb)
    q, st, lw, p = sc['next_positions'][0], sc['status_codes'][0], sc['last_water_positions'][0], sc['positions'][0]
    cx.prove(cx.all([p[0] == a[0], p[1] == a[1], p[2] == z0]), 'the start of the move is kept')
    cx.prove(q[2] == cx.ite(z1 > 0, z1, 0), 'elements end at the given depth, or at the surface if above it')
    if r is None:
        cx.prove(cx.all([q[0] == b[0], q[1] == b[1]]), 'a move that meets no land is made in full')
        cx.prove(cx.all([lw[0] == w[0], lw[1] == w[1]]), 'the last water position is kept without a hit')
    elif halflife == 0:
        cx.prove(within(cx, n, q[0], q[1], r[0]), 'without refloat delay elements stay in the water before the land met')
    else:
        cx.prove(within(cx, n, q[0], q[1], r[1]), 'a move that meets land ends in the first land cell')
        cx.prove(within(cx, n, lw[0], lw[1], r[0]), 'the last water position is in the cell before the land met')
    here = LAND if r is not None and halflife != 0 else WATER
    cx.prove(cx.implies(inside(cx, m, n, bound, q[0], q[1]), st == here), 'the status says whether the element beached')
    cx.prove(cx.implies(outside(cx, m, n, bound, q[0], q[1]), st == OFF), 'elements outside of the map bounds are marked')
    cx.prove(sc.mass_balance['beached'] == cx.ite(st == LAND, mass, 0), 'beached mass')
    cx.prove(sc.mass_balance['off_maps'] == off0 + cx.ite(st == OFF, mass, 0), 'mass off the map')


def stays(cx, halflife):
    """an element on land stays where it is while another moves"""
    from gnome.cy_gnome.cy_land_check import find_first_pixel
    m, n = 3, 1
    G = cells(cx, m, n)
    M = a_map(cx, G, rect(m, n, 1), halflife)
    sc = container(cx, 2)
    i = cx.int('i', 0, m - 1)
    cx.assume(cx.any([cx.all([i == k, G[k][0] != 0]) for k in range(m)]))
    x = LON0 + D * (i + 0.5)
    a0, b0 = cx.real('a', LON0 - D, LON0 + D * (m + 1)), cx.real('b', LON0 - D, LON0 + D * (m + 1))
    y = LAT0 + D / 2
    m0, m1 = cx.real('m0', 0, 1000), cx.real('m1', 0, 1000)
    z = cx.real('z', 0, 10)
    set_array(sc, 'positions', [(x, y, z), (a0, y, 0.)])
    set_array(sc, 'next_positions', [(x, y, z), (b0, y, 0.)])
    wx = LON0 + D * (i - 0.5)
    set_array(sc, 'last_water_positions', [(wx, y, 0.), (a0, y, 0.)])
    set_array(sc, 'mass', [m0, m1])
    set_array(sc, 'status_codes', [LAND, WATER])
    M.beach_elements(sc)
    r = find_first_pixel(grid_of(cx, G), (cx.floor((a0 - LON0) / D), 0), (cx.floor((b0 - LON0) / D), 0))
    q, lw = sc['next_positions'], sc['last_water_positions']
    cx.prove(sc['status_codes'][0] == LAND, 'elements on land stay on land')
    cx.prove(cx.all([cx.close(q[0][0], x), cx.close(q[0][1], y), q[0][2] == z]), 'elements on land do not move')
    cx.prove(cx.all([cx.close(lw[0][0], wx), cx.close(lw[0][1], y)]), 'and keep their last water position')
    hit = r is not None
    cx.prove(cx.implies(inside(cx, m, n, 1, q[1][0], y), sc['status_codes'][1] == (LAND if hit else WATER)),
             'the other element is judged by its own move')
    cx.prove(sc.mass_balance['beached'] == m0 + cx.ite(sc['status_codes'][1] == LAND, m1, 0), 'beached mass of two')


def refloat(cx, k, halflife, step):
    from math import pow
    h = cx.choice('h', halflife)
    dt = cx.choice('dt', step)
    M = a_map(cx, [[0, 1]], None, h)
    sc = container(cx, k)
    st = [cx.choice('st%d' % i, [LAND, WATER, OFF]) for i in range(k)]
    pos = [[cx.real('p%d%d' % (i, j), -50, 50) for j in range(3)] for i in range(k)]
    lw = [[cx.real('w%d%d' % (i, j), -50, 50) for j in range(3)] for i in range(k)]
    set_array(sc, 'positions', pos)
    set_array(sc, 'last_water_positions', lw)
    set_array(sc, 'status_codes', st)
    n = len(cx.draws)
    M.refloat_elements(sc, dt)
    for i in range(k):
        p, s = sc['positions'][i], sc['status_codes'][i]
        kept = cx.all([p[j] == pos[i][j] for j in range(3)] + [s == st[i]])
        back = cx.all([p[j] == lw[i][j] for j in range(3)] + [s == WATER])
        if st[i] != LAND or h < 0:
            cx.prove(kept, 'only elements on land refloat, and none with a negative half life')
        elif h == 0:
            cx.prove(back, 'all refloat with a half life of zero')
        else:
            u, c = cx.draws[n], 1.0 - pow(0.5, dt / (h * 3600.0))
            n += 1
            cx.prove(cx.implies(u < c - 1e-9, back), 'refloats within the half life: back to the last water position')
            cx.prove(cx.implies(u > c + 1e-9, kept), 'stays on land beyond it')


def landless(cx):
    """maps without land"""
    from gnome.maps.map import GnomeMap
    M = GnomeMap(map_bounds=rect(2, 2, 0))
    sc = container(cx, 2)
    q = [point(cx, str(i), 2, 2) for i in range(2)]
    z = [cx.real('z%d' % i, -50, 50) for i in range(2)]
    mass = [cx.real('m%d' % i, 0, 100) for i in range(2)]
    set_array(sc, 'next_positions', [(q[i][0], q[i][1], z[i]) for i in range(2)])
    set_array(sc, 'mass', mass)
    M.beach_elements(sc)
    M.refloat_elements(sc, 900)
    off = 0
    for i in range(2):
        p, s = sc['next_positions'][i], sc['status_codes'][i]
        cx.prove(cx.all([p[0] == q[i][0], p[1] == q[i][1], p[2] == cx.ite(z[i] > 0, z[i], 0)]),
                 'without land, elements move freely under the surface')
        cx.prove(cx.implies(inside(cx, 2, 2, 0, *q[i]), s == WATER), 'without land, elements stay in water')
        cx.prove(cx.implies(outside(cx, 2, 2, 0, *q[i]), s == OFF), 'without land, elements leave the map')
        off = off + cx.ite(s == OFF, mass[i], 0)
    cx.prove(cx.all([sc.mass_balance['off_maps'] == off, sc.mass_balance['beached'] == 0]), 'without land, mass off the map')


def queries(cx, bound):
    """what is land, water and a place to spill"""
    m, n = 2, 2
    G = cells(cx, m, n)
    M = a_map(cx, G, rect(m, n, bound))
    lon, lat = point(cx, '', m, n)
    c = cell(cx, n, lon, lat)
    land = cx.any([cx.all([c[0] == i, c[1] == j, G[i][j] != 0]) for i in range(m) for j in range(n)])
    p = (lon, lat, 0.)
    ins, out = inside(cx, m, n, bound, lon, lat), outside(cx, m, n, bound, lon, lat)
    cx.prove(cx.iff(M.on_land(p), land), 'on_land: in a land cell')
    both = M.on_land_points(cx.array([p, (LON0 - 9., LAT0, 0.)]))
    cx.prove(cx.iff(both[0], land), 'on_land_points: in a land cell')
    cx.prove(cx.not_(both[1]), 'on_land_points: not off the raster')
    w = M.in_water(p)
    cx.prove(cx.implies(ins, cx.iff(w, cx.not_(land))), 'in_water: on the map and not in a land cell')
    cx.prove(cx.implies(out, cx.not_(w)), 'in_water: not off the map')
    a = M.allowable_spill_position(p)
    cx.prove(cx.implies(ins, cx.iff(a, cx.not_(land))), 'spills are allowed on water')
    cx.prove(cx.implies(out, cx.not_(a)), 'spills are not allowed off the map')


PROP = Property('C06', [
    Case('beach-%d' % k, beach, dict(m=3, n=2, bound=1, halflife=1, part=k), max_paths=30000) for k in range(4)
] + [
    Case('small-bounds', beach, dict(m=2, n=1, bound=-0.2, halflife=2, part=3), max_paths=30000),
    Case('no-delay', beach, dict(m=2, n=2, bound=1, halflife=0, part=1), max_paths=30000),
    Case('stays', stays, dict(halflife=1)),
    Case('stays-forever', stays, dict(halflife=-1)),
    Case('refloat', refloat, dict(k=2, halflife=[0.5, 1, 6], step=[300, 3600])),
    Case('refloat-never', refloat, dict(k=2, halflife=[-1, 0], step=[900])),
    Case('landless', landless, {}),
    Case('queries-large', queries, dict(bound=1)),
    Case('queries-small', queries, dict(bound=-0.2)),
], pyx=['gnome.cy_gnome.cy_land_check', 'gnome.utilities.geometry.cy_point_in_polygon'])
