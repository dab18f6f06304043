"""C05: land is a barrier on raster maps"""
from symex.case import Case, Property
from props.lib import BASE, make_sc, set_array, total

INFO = {
    'functions': ['cy_land_check.find_first_pixel', 'cy_land_check.c_find_first_pixel', 'cy_land_check.check_land',
                  'cy_land_check.check_land_layers', 'RasterMap.build_coarser_rasters', 'RasterMap.beach_elements'],
    'bounds': 'every land/water raster of 3 x 3 cells (4 x 3 in thorough) and every straight move between cells up to '
              '2 cells outside of it; coarse layers of ratio 2 over rasters of 4 x 4 cells (three layers in thorough)',
    'outside': 'larger rasters; int32 overflow of cell numbers',
    'stubs': [],
    'assumptions': [],
}


def cells(cx, m, n):
    """any raster"""
    return [[cx.int('g%d%d' % (i, j), 0, 1) for j in range(n)] for i in range(m)]


def grid_of(cx, G):
    import numpy as np
    return cx.array(G, dtype=np.uint8)


def on(cx, m, n, x, y):
    return cx.all([x >= 0, x < m, y >= 0, y < n])


def land(cx, G, x, y):
    """the cell is on the raster and land (x, y symbolic)"""
    return cx.any([cx.all([x == i, y == j, G[i][j] != 0]) for i in range(len(G)) for j in range(len(G[0]))])


def near(cx, p, q, x, y, strict):
    """cell (x, y) is one the straight line from p to q passes: within half a cell across at its
    position along the longer side, and between the ends"""
    dx, dy = q[0] - p[0], q[1] - p[1]
    c = dx * (y - p[1]) - dy * (x - p[0])
    d = cx.mx(cx.ite(dx >= 0, dx, -dx), cx.ite(dy >= 0, dy, -dy))
    a = cx.ite(c >= 0, c, -c) * 2
    between = cx.all([x >= cx.mn(p[0], q[0]), x <= cx.mx(p[0], q[0]), y >= cx.mn(p[1], q[1]), y <= cx.mx(p[1], q[1])])
    return cx.all([between, a < d if strict else a <= d])


def judge(cx, G, p, q, hit, prev, cell, label):
    """hit: truth; prev, cell: last water and hit cell"""
    m, n = len(G), len(G[0])
    if not hit:
        for i in range(m):
            for j in range(n):
                cx.prove(cx.not_(cx.all([G[i][j] != 0, near(cx, p, q, i, j, True)])),
                         label + ': no land on the way of a move that goes through')
        cx.prove(cx.not_(land(cx, G, q[0], q[1])), label + ': no move ends on land unnoticed')
        # a diagonal step between two land cells
        sx = cx.ite(q[0] >= p[0], 1, -1)
        sy = cx.ite(q[1] >= p[1], 1, -1)
        for i in range(m):
            for j in range(n):
                squeezed = cx.all([near(cx, p, q, i, j, True), near(cx, p, q, i + sx, j + sy, True),
                                   land(cx, G, i + sx, j * 1), land(cx, G, i * 1, j + sy)])
                cx.prove(cx.not_(squeezed), label + ': no slipping between two land cells')
        return
    cx.prove(land(cx, G, cell[0], cell[1]), label + ': what is hit is land')
    stays = cx.all([prev[0] == cell[0], prev[1] == cell[1]])
    start = land(cx, G, p[0], p[1])
    cx.prove(cx.iff(stays, start), label + ': hit at the start if and only if it is land')
    cx.prove(cx.any([start, cx.not_(land(cx, G, prev[0], prev[1]))]), label + ': the last water cell is water')
    ax, ay = prev[0] - cell[0], prev[1] - cell[1]
    cx.prove(cx.all([ax >= -1, ax <= 1, ay >= -1, ay <= 1]), label + ': the last water cell is next to the land hit')
    cx.prove(near(cx, p, q, prev[0], prev[1], False), label + ': the last water cell is on the way')
    across = near(cx, p, q, cell[0], cell[1], False)
    # a cell beside a diagonal step, if the other one is land too
    sx = cx.ite(q[0] >= p[0], 1, -1)
    sy = cx.ite(q[1] >= p[1], 1, -1)
    both = cx.all([land(cx, G, prev[0] + sx, prev[1]), land(cx, G, prev[0], prev[1] + sy),
                   near(cx, p, q, prev[0] + sx, prev[1] + sy, False)])
    cx.prove(cx.any([across, both]), label + ': what is hit is on the way, or blocks a diagonal step')
    # nothing earlier on the way is land
    for i in range(m):
        for j in range(n):
            here = cx.all([G[i][j] != 0, near(cx, p, q, i, j, True)])
            d0 = cx.mx(cx.ite(i >= p[0], i - p[0], p[0] - i), cx.ite(j >= p[1], j - p[1], p[1] - j))
            dp = cx.mx(cx.ite(prev[0] >= p[0], prev[0] - p[0], p[0] - prev[0]),
                       cx.ite(prev[1] >= p[1], prev[1] - p[1], p[1] - prev[1]))
            cx.prove(cx.implies(cx.all([here, cx.not_(start)]), d0 > dp), label + ': the first land on the way is hit')


def ends(cx, m, n, r=2):
    return ((cx.int('x0', -r, m - 1 + r), cx.int('y0', -r, n - 1 + r)),
            (cx.int('x1', -r, m - 1 + r), cx.int('y1', -r, n - 1 + r)))


def first(cx, m, n, part=None):
    from gnome.cy_gnome.cy_land_check import find_first_pixel
    G = cells(cx, m, n)
    p, q = ends(cx, m, n)
    split(cx, p, q, part)
    r = find_first_pixel(grid_of(cx, G), p, q)
    if r is None:
        judge(cx, G, p, q, False, None, None, 'move')
    else:
        judge(cx, G, p, q, True, r[0], r[1], 'move')


def moves(cx, k, p, q, status, lw):
    import numpy as np
    return (cx.array([p] * 1, dtype=np.int32), cx.array([q] * 1, dtype=np.int32),
            cx.array([status], dtype=np.int16), cx.array([lw], dtype=np.int32))


def layers(cx, m, n, ratios, r, part=None):
    """coarse layers do not change what a move does"""
    import numpy as np
    from gnome.maps.map import RasterMap
    from gnome.utilities.projections import NoProjection
    from gnome.cy_gnome.cy_land_check import check_land_layers, find_first_pixel
    G = cells(cx, m, n)
    p, q = ends(cx, m, n, r)
    split(cx, p, q, part)
    M = RasterMap(raster=grid_of(cx, G), projection=NoProjection())
    M.ratios = np.array(ratios, dtype=np.int32)
    a = moves(cx, 1, p, q, 2, (91, 92))
    check_land_layers(M.layers, M.ratios, *a)
    r = find_first_pixel(grid_of(cx, G), p, q)
    same(cx, a, r, p, q, (91, 92), 'with coarser layers')


def same(cx, a, r, p, q, lw, label):
    pos, end, st, last = (x[0] for x in a)
    if r is None:
        cx.prove(st == 2, label + ': the status is kept without land')
        cx.prove(cx.all([pos[0] == q[0], pos[1] == q[1], end[0] == q[0], end[1] == q[1]]),
                 label + ': moves go through without land')
        cx.prove(cx.all([last[0] == lw[0], last[1] == lw[1]]), label + ': the last water position is kept without land')
    else:
        cx.prove(st == 3, label + ': what hits land is on land')
        cx.prove(cx.all([end[0] == r[1][0], end[1] == r[1][1]]), label + ': the move ends at the first land')
        cx.prove(cx.all([last[0] == r[0][0], last[1] == r[0][1]]), label + ': the last water position is the cell before')
        cx.prove(cx.all([pos[0] == p[0], pos[1] == p[1]]), label + ': what hits land does not move on')


def split(cx, p, q, part):
    if part is not None:
        cx.assume(q[0] >= p[0] if part & 1 else q[0] < p[0])
        cx.assume(q[1] >= p[1] if part & 2 else q[1] < p[1])
        if part >= 8:
            dx, dy = (q[0] - p[0]) * (1 if part & 1 else -1), (q[1] - p[1]) * (1 if part & 2 else -1)
            cx.assume(dx >= dy if part & 4 else dx < dy)


def several(cx, layered):
    """elements are judged one by one, and what lies on land already stays"""
    import numpy as np
    from gnome.maps.map import RasterMap
    from gnome.utilities.projections import NoProjection
    from gnome.cy_gnome.cy_land_check import check_land, check_land_layers, find_first_pixel
    G = cells(cx, 3, 1)
    x0, x1 = cx.int('x0', -1, 3), cx.int('x1', -1, 3)
    x2, x3 = cx.int('x2', 0, 2), cx.int('x3', 0, 2)
    st = cx.int('st', 0, 1)
    stt = cx.ite(st == 1, 3, 2)
    a = (cx.array([(x0, 0), (x2, 0)], dtype=np.int32), cx.array([(x1, 0), (x3, 0)], dtype=np.int32),
         cx.array([2, stt], dtype=np.int16), cx.array([(7, 7), (8, 8)], dtype=np.int32))
    if layered:
        M = RasterMap(raster=grid_of(cx, G), projection=NoProjection())
        M.ratios = np.array((2, 1), dtype=np.int32)
        check_land_layers(M.layers, M.ratios, *a)
    else:
        check_land(grid_of(cx, G), *a)
    r = find_first_pixel(grid_of(cx, G), (x0, 0), (x1, 0))
    same(cx, [x[:1] for x in a], r, (x0, 0), (x1, 0), (7, 7), 'first of two')
    if st == 1:
        cx.prove(cx.all([a[0][1, 0] == x2, a[0][1, 1] == 0, a[1][1, 0] == x3, a[1][1, 1] == 0, a[2][1] == 3,
                         a[3][1, 0] == 8, a[3][1, 1] == 8]), 'elements on land already are left alone')
    else:
        r = find_first_pixel(grid_of(cx, G), (x2, 0), (x3, 0))
        same(cx, [x[1:] for x in a], r, (x2, 0), (x3, 0), (8, 8), 'second of two')


PROP = Property('C05', [
    Case('first-%d' % k, first, dict(m=3, n=3, part=k), max_paths=30000) for k in range(4)
] + [
    Case('layers-%d' % k, layers, dict(m=4, n=3, ratios=(2, 1), r=0, part=k), max_paths=30000) for k in range(4)
] + [
    Case('outside-%d' % k, layers, dict(m=3, n=2, ratios=(2, 1), r=1, part=k), max_paths=30000) for k in range(4)
] + [
    Case('several', several, dict(layered=False)), Case('several-layers', several, dict(layered=True)),
] + [
    Case('three-layers-%d' % k, layers, dict(m=5, n=4, ratios=(4, 2, 1), r=0, part=k), tier='thorough', budget=1500,
         max_paths=100000) for k in range(8, 16)
] + [
    Case('larger-%d' % k, first, dict(m=4, n=3, part=k), tier='thorough', budget=1500, max_paths=100000) for k in range(8, 16)
], pyx=['gnome.cy_gnome.cy_land_check'])
