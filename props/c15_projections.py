"""C15: geographic and pixel coordinates, metres and degrees"""
from symex.case import Case, Property

INFO = {
    'functions': ['GeoProjection.set_scale', 'GeoProjection.to_pixel', 'GeoProjection.to_lonlat',
                  'FlatEarthProjection.set_scale', 'FlatEarthProjection.meters_to_lonlat',
                  'FlatEarthProjection.lonlat_to_meters', 'RegularGridProjection.set_scale',
                  'RectangularGridProjection.to_pixel', 'RectangularGridProjection.to_lonlat',
                  'NoProjection.to_pixel', 'NoProjection.to_lonlat', 'GeoProjection.to_pixel_multipoint'],
    'bounds': 'one or two points anywhere within 1000 degrees of the map; bounding boxes of any position and size '
              '(four fixed ones for the round trips of two points, with images of 3 x 2 to 1000 x 800 pixels); '
              'rectangular grids of 3 x 4 nodes of any spacing (some with axes that run backwards); latitudes up to 85 degrees for metres',
    'outside': 'points within rounding error of a pixel edge; geodesic_sphere',
    'stubs': ['scipy.interpolate.interp1d: piecewise linear interpolation, NaN outside',
              'cosine: uninterpreted with its bounds and monotonicity'],
    'assumptions': ['machine floats as reals'],
}

BOXES = [((-10.0, 40.0), (20.0, 60.0)), ((170.0, -62.5), (190.5, -60.0)), ((0.0, 0.0), (1.0, 1.0)),
         ((-124.0, 46.0), (-123.5, 49.0))]
SIZES = [(3, 2), (1000, 800), (1, 7), (600, 600)]


def make(kind, box, size):
    from gnome.utilities import projections as p
    return getattr(p, kind)(bounding_box=box, image_size=size)


def points(cx, n, lo, hi, dims=2, tag='p'):
    return [[cx.real('%s%d%d' % (tag, i, j), lo, hi) for j in range(dims)] for i in range(n)]


def trips(cx, kind, dims):
    """there and back, two points, fixed boxes"""
    P = make(kind, *cx.choice('box', list(zip(BOXES, SIZES))))
    raw = points(cx, 2, -1000, 1000, dims)
    a = cx.array(raw)
    px = P.to_pixel(a)
    cx.prove(tuple(px.shape) == (2, 2), 'pixels are two-dimensional')
    keep = [[px[i][j] * 1 for j in range(2)] for i in range(2)]
    ll = P.to_lonlat(px)
    for i in range(2):
        for j in range(2):
            cx.prove(cx.close(ll[i][j], raw[i][j], 1e-6), 'to_lonlat undoes to_pixel')
            cx.prove(px[i][j] == keep[i][j], 'to_lonlat leaves its argument alone')
    for i in range(2):
        for j in range(dims):
            cx.prove(a[i][j] == raw[i][j], 'to_pixel leaves its argument alone')
    k = P.to_pixel(a, asint=True)
    for i in range(2):
        for j in range(2):
            cx.prove(cx.all([k[i][j] <= px[i][j] + 1e-6, px[i][j] - 1e-6 < k[i][j] + 1]),
                     'the whole pixel is the one the point falls into')
    m = P.to_pixel_multipoint(cx.array([raw[0][:2], raw[1][:2]]))
    cx.prove(cx.all([cx.close(m[i][j], keep[i][j]) for i in range(2) for j in range(2)]), 'to_pixel_multipoint agrees')


def pixels(cx, kind):
    """whole pixels, there and back"""
    import numpy as np
    P = make(kind, *cx.choice('box', list(zip(BOXES, SIZES))))
    raw = [[cx.int('k%d%d' % (i, j), -2000, 2000) for j in range(2)] for i in range(2)]
    a = cx.array(raw, dtype=np.int32)
    ll = P.to_lonlat(a)
    k = P.to_pixel(ll, asint=True)
    f = P.to_pixel(ll)
    for i in range(2):
        for j in range(2):
            cx.prove(k[i][j] == raw[i][j], 'a whole pixel maps to a point in that pixel')
            cx.prove(cx.close(f[i][j], raw[i][j] + 0.5, 1e-6), 'a whole pixel maps to its centre')
            cx.prove(a[i][j] == raw[i][j], 'to_lonlat leaves whole pixels alone')


def fits(cx, kind, size):
    """any box"""
    w, h = cx.real('w', 0.01, 300), cx.real('h', 0.01, 150)
    x0, y0 = cx.real('x0', -180, 180), cx.real('y0', -80, 10)
    if kind == 'FlatEarthProjection':
        cx.assume(y0 + h / 2 < 85)
    P = make(kind, ((x0, y0), (x0 + w, y0 + h)), size)
    u, v = cx.real('u', 0, 1), cx.real('v', 0, 1)
    q = P.to_pixel(cx.array([[x0 + u * w, y0 + v * h]]))[0]
    cx.prove(cx.all([q[0] >= -1e-6, q[0] <= size[0] + 1e-6]), 'the bounding box fits the width of the image')
    cx.prove(cx.all([q[1] >= -1e-6, q[1] <= size[1] + 1e-6]), 'the bounding box fits the height of the image')
    a, b = P.to_pixel(cx.array([[x0, y0], [x0 + w, y0 + h]]))
    cx.prove(cx.all([b[0] > a[0], b[1] < a[1]]), 'east is right and north is up')
    full = cx.any([b[0] - a[0] >= size[0] - 1e-6, a[1] - b[1] >= size[1] - 1e-6])
    cx.prove(full, 'the bounding box fills the image one way')
    if kind == 'RegularGridProjection':
        cx.prove(cx.all([b[0] - a[0] >= size[0] - 1e-6, a[1] - b[1] >= size[1] - 1e-6]), 'and the other')


def metres(cx, n):
    """metres to degrees and back"""
    from gnome.utilities.projections import FlatEarthProjection as P
    d = points(cx, n, -1e5, 1e5, 3)
    ref = [[cx.real('r%d' % i, -180, 180), cx.real('s%d' % i, -85, 85), cx.real('t%d' % i, -10, 10)] for i in range(n)]
    a, r = cx.array(d), cx.array(ref)
    g = P.meters_to_lonlat(a, r)
    for i in range(n):
        c = cx.cosd(ref[i][1])
        cx.prove(cx.close(g[i][1], d[i][1] * 8.9992801e-06, 1e-12), 'degrees of latitude per metre')
        cx.prove(cx.close(g[i][0] * c, d[i][0] * 8.9992801e-06, 1e-12), 'degrees of longitude per metre')
        cx.prove(g[i][2] == d[i][2], 'depths pass through')
    m = P.lonlat_to_meters(g, r)
    for i in range(n):
        for j in range(3):
            cx.prove(cx.close(m[i][j], d[i][j], 1e-6), 'metres to degrees and back')
            cx.prove(cx.all([a[i][j] == d[i][j], r[i][j] == ref[i][j]]), 'distances leave their arguments alone')


def axis(cx, tag, n, lo):
    v = [cx.real(tag + '0', lo, lo + 50)]
    for i in range(1, n):
        v.append(v[-1] + cx.real('%s%d' % (tag, i), 0.125, 10))
    return v


def rectangular(cx, fixed):
    """grids of any spacing"""
    from gnome.utilities.projections import RectangularGridProjection
    if fixed:
        lon, lat = [10.0, 10.5, 12.5, 13.0], [40.0, 42.0, 42.5]
    else:
        lon, lat = axis(cx, 'x', 3, 0.0), axis(cx, 'y', 2, 0.0)
    P = RectangularGridProjection(cx.array(lon), cx.array(lat))
    p = [cx.real('p', -1000, 1000), cx.real('q', -1000, 1000), 1.0]
    a = cx.array([p])
    px = P.to_pixel(a)[0]
    k = P.to_pixel(a, asint=True)[0]
    nx, ny = len(lon) - 1, len(lat) - 1
    for i in range(nx):
        ins = cx.all([p[0] > lon[i], p[0] < lon[i + 1]])
        cx.prove(cx.implies(ins, k[0] == i), 'the column is the interval of longitudes')
        cx.prove(cx.implies(ins, cx.close(px[0] * (lon[i + 1] - lon[i]), i * (lon[i + 1] - lon[i]) + p[0] - lon[i], 1e-6)),
                 'columns are linear within it')
    for i in range(ny):
        ins = cx.all([p[1] > lat[i], p[1] < lat[i + 1]])
        cx.prove(cx.implies(ins, k[1] == ny - 1 - i), 'the row is the interval of latitudes, from the top')
    cx.prove(cx.all([px[0] >= -1e-9, px[0] <= nx + 1e-9, px[1] >= -1e-9, px[1] <= ny + 1e-9]),
             'points off the grid are taken to its edge')
    for j in range(3):
        cx.prove(a[0][j] == p[j], 'to_pixel of a grid leaves its argument alone')
    b = cx.array([[px[0], px[1]]])
    ll = P.to_lonlat(b)[0]
    cx.prove(cx.all([b[0][0] == px[0], b[0][1] == px[1]]), 'to_lonlat of a grid leaves its argument alone')
    for j, ax in ((0, lon), (1, lat)):
        ins = cx.all([p[j] >= ax[0], p[j] <= ax[-1]])
        cx.prove(cx.implies(ins, cx.close(ll[j], p[j], 1e-6)), 'to_lonlat of a grid undoes to_pixel')
    if fixed:
        q = [cx.real('u', -10, 10), cx.real('v', -10, 10)]
        b = cx.array([q])
        P.to_lonlat(b)
        cx.prove(cx.all([b[0][0] == q[0], b[0][1] == q[1]]), 'to_lonlat of a grid leaves its argument alone')


def falling(cx):
    """axes that run from east to west or north to south"""
    from gnome.utilities.projections import RectangularGridProjection
    lon, lat = [[10.0, 10.5, 12.5, 13.0], [40.0, 42.0, 42.5]]
    d = cx.choice('axes', [(1, -1), (-1, 1), (-1, -1)])
    lon, lat = lon[::d[0]], lat[::d[1]]
    P = RectangularGridProjection(cx.array(lon), cx.array(lat))
    p = [cx.real('p', -100, 100), cx.real('q', -100, 100), 1.0]
    px = P.to_pixel(cx.array([p]))[0]
    cx.prove(cx.all([px[0] >= -1e-9, px[0] <= 3 + 1e-9, px[1] >= -1e-9, px[1] <= 2 + 1e-9]),
             'points off the grid are taken to its edge')
    ll = P.to_lonlat(cx.array([[px[0], px[1]]]))[0]
    for j, ax in ((0, lon), (1, lat)):
        q = cx.mx(cx.mn(p[j], max(ax)), min(ax))
        cx.prove(cx.close(ll[j], q, 1e-6), 'to_lonlat of a grid undoes to_pixel')
    k = [px[0], 2 - px[1]]
    for j, ax in ((0, lon), (1, lat)):
        for i in range(len(ax) - 1):
            ins = cx.all([p[j] > min(ax[i:i + 2]), p[j] < max(ax[i:i + 2])])
            cx.prove(cx.implies(ins, cx.all([k[j] > i - 1e-9, k[j] < i + 1 + 1e-9])), 'the intervals of the axes')


def grid_cells(cx):
    import numpy as np
    from gnome.utilities.projections import RectangularGridProjection
    lon, lat = [10.0, 10.5, 12.5, 13.0], [40.0, 42.0, 42.5]
    P = RectangularGridProjection(np.array(lon), np.array(lat))
    i, j = cx.int('i', 0, 2), cx.int('j', 0, 1)
    a = cx.array([[i, j]], dtype=np.int32)
    ll = P.to_lonlat(a)
    k = P.to_pixel(ll, asint=True)[0]
    cx.prove(cx.all([k[0] == i, k[1] == j]), 'a cell of a grid maps to a point in that cell')
    cx.prove(cx.all([a[0][0] == i, a[0][1] == j]), 'to_lonlat of a grid leaves whole pixels alone')


def none(cx):
    import numpy as np
    from gnome.utilities.projections import NoProjection
    P = NoProjection()
    raw = points(cx, 2, 0, 1000, 3)
    a = cx.array(raw)
    px, k = P.to_pixel(a), P.to_pixel(a, asint=True)
    for i in range(2):
        for j in range(2):
            cx.prove(px[i][j] == raw[i][j], 'no projection: the same coordinates')
            cx.prove(k[i][j] == cx.floor(raw[i][j]), 'no projection: rounded down')
    ll = P.to_lonlat(px)
    cx.prove(cx.all([ll[i][j] == raw[i][j] for i in range(2) for j in range(2)]), 'no projection: and back')


GEO = ('GeoProjection', 'FlatEarthProjection', 'RegularGridProjection')
PROP = Property('C15', [
    Case('trips-%s' % k, trips, dict(kind=k, dims=d)) for d, k in zip((3, 2, 3), GEO)
] + [
    Case('pixels-%s' % k, pixels, dict(kind=k)) for k in GEO
] + [
    Case('fits-%s' % k, fits, dict(kind=k, size=(30, 20))) for k in GEO
] + [
    Case('metres', metres, dict(n=2)),
    Case('falling', falling),
    Case('rectangular', rectangular, dict(fixed=True)),
    Case('rectangular-any', rectangular, dict(fixed=False)),
    Case('grid-cells', grid_cells), Case('none', none),
], encoders=['scipyenc'])
