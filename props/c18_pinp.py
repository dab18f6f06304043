"""C18: points in polygons (Cython wrapper and C kernel)"""
from symex.case import Case, Property

INFO = {
    'functions': ['cy_point_in_polygon.point_in_poly', 'cy_point_in_polygon.points_in_poly',
                  'cy_point_in_polygon.points_in_polys', 'c_point_in_poly1',
                  'gnome.utilities.geometry.poly_clockwise.is_clockwise'],
    'bounds': 'polygons of 3 to 4 vertices (5 in the thorough tier) with any coordinates in '
              '[-10, 10], convex or not, self-intersecting or degenerate, either orientation, first '
              'vertex repeated or not; 1 to 2 points anywhere in [-12, 12]; 1 to 2 polygon/point pairs',
    'assumptions': ['machine floats as reals: points within rounding error of an edge are outside '
                    'of the claim'],
    'stubs': [],
    'outside': 'more vertices; NaN coordinates',
}


def geometry():
    from gnome.utilities.geometry import cy_point_in_polygon as m
    return m


def polygon(cx, n, tag='v'):
    return cx.array([[cx.real('%sx%d' % (tag, i), -10, 10), cx.real('%sy%d' % (tag, i), -10, 10)]
                     for i in range(n)])


def inside(cx, poly, n, x, y):
    """even-odd rule with half-open edges, from the definition"""
    c = False
    for i in range(n):
        j = (i - 1) % n
        x1, y1, x2, y2 = poly[i][0], poly[i][1], poly[j][0], poly[j][1]
        up = cx.all([y1 <= y, y < y2])
        dn = cx.all([y2 <= y, y < y1])
        # the edge meets the horizontal line through the point to the right of it
        d = (x2 - x1) * (y - y1) - (x - x1) * (y2 - y1)
        hit = cx.any([cx.all([up, d > 0]), cx.all([dn, d < 0])])
        c = cx.any([cx.all([c, cx.not_(hit)]), cx.all([cx.not_(c), hit])])
    return c


def single(cx, n):
    """one point, any polygon"""
    m = geometry()
    v = cx.choice('n', n)
    poly = polygon(cx, v)
    x, y = cx.real('x', -12, 12), cx.real('y', -12, 12)
    r = m.point_in_poly(poly, (x, y))
    cx.prove(cx.iff(r != 0, inside(cx, poly, v, x, y)), 'point_in_poly: even-odd rule')


def closed(cx):
    """repeating the first vertex changes nothing"""
    m = geometry()
    poly = polygon(cx, 3)
    again = cx.array([list(poly[0]), list(poly[1]), list(poly[2]), list(poly[0])])
    x, y = cx.real('x', -12, 12), cx.real('y', -12, 12)
    r = m.point_in_poly(again, (x, y))
    cx.prove(cx.iff(r != 0, inside(cx, poly, 3, x, y)), 'point_in_poly: closed polygon')


def many(cx):
    """several 3-d points at once, or a single one; the arguments stay as they were"""
    m = geometry()
    k = cx.choice('k', ['one', 1, 2])
    tri = [[0.0, 0.0], [cx.real('ax', 1, 4), cx.real('ay', -2, 2)], [cx.real('bx', -2, 4), 3.0]]
    poly = cx.array(tri)
    n = 1 if k == 'one' else k
    pts = [[cx.real('x%d' % i, -3, 5), cx.real('y%d' % i, -3, 5), cx.real('z%d' % i, 0, 5)]
           for i in range(n)]
    arg = cx.array(pts[0]) if k == 'one' else cx.array(pts)
    r = m.points_in_poly(poly, arg)
    if k == 'one':
        cx.prove(cx.iff(r, inside(cx, tri, 3, pts[0][0], pts[0][1])), 'points_in_poly: single point')
    else:
        cx.prove(len(r) == n, 'points_in_poly: one answer per point')
        for i in range(n):
            cx.prove(cx.iff(r[i], inside(cx, tri, 3, pts[i][0], pts[i][1])), 'points_in_poly: each point')
    cx.prove(arg.shape == ((3,) if k == 'one' else (n, 3)), 'points_in_poly: shape of the argument kept')
    flat = [arg[i] for i in range(3)] if k == 'one' else [arg[i, j] for i in range(n) for j in range(3)]
    want = [c for p in pts for c in p]
    cx.prove(cx.all([cx.close(a, b) for a, b in zip(flat, want)]), 'points_in_poly: argument not changed')


def pairs(cx):
    """i-th point against the i-th polygon"""
    m = geometry()
    n = cx.choice('n', [1, 2])
    tris = [[[0.0, 0.0], [cx.real('ax%d' % i, 1, 4), cx.real('ay%d' % i, -2, 2)], [1.0, 3.0]]
            for i in range(n)]
    pts = [[cx.real('x%d' % i, -3, 5), cx.real('y%d' % i, -3, 5)] for i in range(n)]
    r = m.points_in_polys(cx.array(tris), cx.array(pts))
    for i in range(n):
        cx.prove(cx.iff(r[i], inside(cx, tris[i], 3, pts[i][0], pts[i][1])),
                 'points_in_polys: each with its own polygon')


def shared(cx):
    """two triangles on either side of a common edge: a point is in at most one of them, and
    a point of the common edge's interior is in exactly one"""
    m = geometry()
    a = (0.0, 0.0)
    b = (cx.real('bx', -3, 3), cx.real('by', 1, 4))
    p = (cx.real('px', -8, -4), cx.real('py', -1, 5))
    q = (cx.real('qx', 4, 8), cx.real('qy', -1, 5))
    cx.assume(b[0] * p[1] - b[1] * p[0] > 0.5)
    cx.assume(b[0] * q[1] - b[1] * q[0] < -0.5)
    left = cx.array([list(a), list(b), list(p)])
    right = cx.array([list(b), list(a), list(q)])
    t = cx.real('t', 0, 1)
    cx.assume(t > 0)
    cx.assume(t < 1)
    on = cx.flag('on')
    x, y = (b[0] * t, b[1] * t) if on else (cx.real('x', -9, 9), cx.real('y', -2, 6))
    i = m.point_in_poly(left, (x, y)) != 0
    j = m.point_in_poly(right, (x, y)) != 0
    if on:
        cx.prove(cx.not_(cx.iff(i, j)), 'shared edge: in exactly one')
    else:
        cx.prove(cx.not_(cx.all([i, j])), 'neighbours: in at most one')


def clockwise(cx, n):
    from gnome.utilities.geometry import is_clockwise
    v = cx.choice('n', n)
    P = [(cx.real('vx%d' % i, -10, 10), cx.real('vy%d' % i, -10, 10)) for i in range(v)]
    area = 0.0
    for i in range(v):
        j = (i + 1) % v
        area = area + (P[i][0] * P[j][1] - P[j][0] * P[i][1])
    if area == 0:
        return
    cx.prove(cx.iff(is_clockwise(P), area < 0), 'is_clockwise: sign of the area')
    cx.prove(cx.iff(is_clockwise(P[::-1]), area > 0), 'is_clockwise: reversed polygon')


PROP = Property('C18', [
    Case('single', single, dict(n=[3])),
    Case('single-4', single, dict(n=[4])),
    Case('closed', closed),
    Case('many', many),
    Case('pairs', pairs),
    Case('shared', shared),
    Case('clockwise', clockwise, dict(n=[3, 4])),
    Case('single-5', single, dict(n=[5]), tier='thorough', budget=1500),
    Case('clockwise-5', clockwise, dict(n=[5, 6]), tier='thorough', budget=600),
], pyx=['gnome.utilities.geometry.cy_point_in_polygon'])
