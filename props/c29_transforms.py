"""C29: speed and direction <-> velocity components"""
from symex.case import Case, Property

INFO = {
 'functions': ['r_theta_to_uv_wind', 'uv_to_r_theta_wind', 'r_theta_to_uv_current', 'uv_to_r_theta_current'],
 'bounds': 'one to three rows; any speed up to 120 and direction from -30 to 400 degrees, or any components up to 100',
 'outside': 'rounding of the components to 14 decimals',
 'stubs': ['sin, cos, atan: uninterpreted with axioms (signs, bounds, sin^2+cos^2=1)'],
 'assumptions': ['machine floats as reals'],
}
DEG = 57.29577951308232


def to_uv(cx, kind, n):
    import gnome.utilities.transforms as tr
    f = getattr(tr, 'r_theta_to_uv_' + kind)
    sign = -1 if kind == 'wind' else 1
    rows = [[cx.real('r%d' % i, -5, 120), cx.real('t%d' % i, -30, 400)] for i in range(n)]
    a = cx.array(rows)
    if n == 1 and cx.flag('flat'):
        a = a.reshape(-1)
    ok = bool(cx.all([cx.all([r >= 0, t >= 0, t <= 360]) for r, t in rows]))
    try:
        uv = f(a)
    except ValueError:
        cx.prove(not ok, 'a speed from 0 and a direction from 0 to 360 are accepted')
        return
    cx.prove(ok, 'a negative speed or a direction outside 0 to 360 is refused')
    cx.prove(uv.shape == (n, 2), 'one velocity per row')
    b = a.reshape(-1, 2)
    for i, (r, t) in enumerate(rows):
        cx.prove(cx.close(uv[i][0], sign * r * cx.fn('sin', t / DEG), 1e-9), 'east component')
        cx.prove(cx.close(uv[i][1], sign * r * cx.fn('cos', t / DEG), 1e-9), 'north component')
        cx.prove(cx.all([b[i][0] == r, b[i][1] == t]), 'input unchanged')


def to_polar(cx, kind, n):
    import gnome.utilities.transforms as tr
    f = getattr(tr, 'uv_to_r_theta_' + kind)
    sign = -1 if kind == 'wind' else 1
    rows = [[cx.real('u%d' % i, -100, 100), cx.real('v%d' % i, -100, 100)] for i in range(n)]
    a = cx.array(rows)
    rt = f(a)
    cx.prove(rt.shape == (n, 2), 'one row each')
    for i, (u, v) in enumerate(rows):
        r, t = rt[i][0], rt[i][1]
        x, y = sign * u, sign * v
        cx.prove(cx.all([r >= 0, cx.close(r * r, u * u + v * v, 1e-6, 1e-6)]), 'the speed is the length')
        cx.prove(cx.all([t >= 0, t < 360]), 'a direction from 0 up to 360')
        if bool(y > 0):
            at = cx.fn('atan', x / y) * DEG
            want = at if bool(x >= 0) else at + 360
        elif bool(y < 0):
            want = cx.fn('atan', x / y) * DEG + 180
        else:
            want = cx.ite(x > 0, 90.0, cx.ite(x < 0, 270.0, 0.0))
        d = t - want
        cx.prove(cx.any([cx.close(d, 0, 1e-5), cx.close(d, 360, 1e-5), cx.close(d, -360, 1e-5)]),
                 'the direction, clockwise from north')
        cx.prove(cx.all([a[i][0] == u, a[i][1] == v]), 'input unchanged')
        cx.observe('t%d' % i, t)


PROP = Property('C29', [
    Case('%s-%s-%d' % (f.__name__, k, n), f, dict(kind=k, n=n))
    for f in (to_uv, to_polar) for k in ('wind', 'current') for n in (1, 2)
])
