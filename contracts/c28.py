import numpy as np
from dv.ctx import contract
from contracts.common import R
from gravity_toolkit.tools import shift_grid, interp_grid, wrap_longitudes, from_cpt
T = 'gravity_toolkit.tools.'

def shifted(ctx, masked):
    """a grid with its longitudes from lon0 - CYCLIC: expected column c of the output comes from column s(c)"""
    n = ctx.int('nlon', 2, draw=(2, 9)); m = ctx.int('nlat', 1, draw=(1, 4))
    d = ctx.real('dlon', lo=ctx.lit('0.01'), draw=(0.5, 40.0)); a = ctx.real('start', lo=-360, hi=360, draw=(-180.0, 180.0))
    # longitudes of a part of the circle, of the whole circle, and with the first meridian repeated at the end
    k = ctx.choice('circle', ['open', 'closed'])
    C = ctx.real('cyclic', lo=1, hi=1000, draw=(1.0, 400.0)) if k == 'open' else d * (n - 1)
    if k == 'open': ctx.assume(C > d * (n - 1) + d / 2)
    lon = a + d * np.arange(n); data = ctx.arr('data', (m, n))
    old = ctx.snap(data)
    if masked:
        mask = ctx.arr('mask', (m, n), kind='b'); data = np.ma.array(data, mask=mask)
    lon0 = ctx.real('lon0', lo=-720, hi=720, draw=(-400.0, 400.0))
    if not ctx.symbolic and ctx.rng.random() < 0.6: lon0 = float(lon[ctx.rng.randrange(len(lon))])
    i0 = np.argmin(np.abs(lon - lon0)); s = 0 if k == 'open' else 1
    r = shift_grid(lon0, data, lon, CYCLIC=C)
    ctx.check(len(r) == 2, 'grid and longitudes')
    D, L = r
    ctx.shape(L, (n,)); ctx.shape(D, (m, n))
    def column(c):
        first = c < n - i0
        src = ctx.ite(first, c + i0, c - (n - i0) + s)
        ctx.eq(L[c], ctx.ite(first, lon[src] - C, lon[src]), 'longitude of the column', tol=1e-12, scale=1000)
        def row(i):
            if masked:
                ctx.check(D.mask[i, c] == mask[i, src], 'mask of the column')
                ctx.when(~mask[i, src] if ctx.symbolic else not mask[i, src], lambda: ctx.eq(D.data[i, c], old[i, src], 'value of the column', tol=0))
            else: ctx.eq(D[i, c], old[i, src], 'value of the column', tol=0)
        ctx.forall(R(m), row)
    ctx.forall(R(n), column)
    # the columns follow each other to the east
    ctx.forall(R(n - 1), lambda c: ctx.check(L[c] < L[c + 1], 'columns in order'))
    ctx.eq(lon, a + d * np.arange(n), 'longitudes given', tol=0)

@contract('shifting a grid keeps every column with its meridian', T + 'shift_grid')
def shift(ctx): shifted(ctx, False)

@contract('shifting a masked grid keeps every column and its mask with its meridian', T + 'shift_grid')
def shift_masked(ctx): shifted(ctx, True)

def axes(ctx):
    nx = ctx.int('nx', 2, draw=(2, 8)); ny = ctx.int('ny', 2, draw=(2, 8))
    dx = ctx.real('dx', lo=ctx.lit('0.01'), draw=(0.25, 20.0)); dy = ctx.real('dy', draw=(-10.0, 10.0)); ctx.assume(dy != 0)
    x0 = ctx.real('x0', lo=-360, hi=360, draw=(-180.0, 180.0)); y0 = ctx.real('y0', lo=-90, hi=90, draw=(-90.0, 90.0))
    return nx, ny, dx, dy, x0, y0, x0 + dx * np.arange(nx), y0 + dy * np.arange(ny)

@contract('nearest neighbours are the values of the closest nodes', T + 'interp_grid')
def nearest(ctx):
    nx, ny, dx, dy, x0, y0, x, y = axes(ctx)
    data = ctx.arr('data', (ny, nx)); n = ctx.int('n', 1, draw=(1, 6))
    # positions in cells from the first node, which may be outside the grid
    u = ctx.arr('u', (n,), draw=(-2.0, 10.0)); v = ctx.arr('v', (n,), draw=(-2.0, 10.0))
    out = interp_grid(data, x, y, x0 + u * dx, y0 + v * dy, order=0) if ctx.choice('given', [True, False]) else interp_grid(data, x, y, x0 + u * dx, y0 + v * dy)
    ctx.shape(out, (n,))
    def one(j):
        # the closest node: within half a cell, or the edge
        def node(w, m):
            c = ctx.ite(w < 0, 0 * w, ctx.ite(w > m - 1, 0 * w + (m - 1), w))
            return c, np.floor(c + ctx.lit('0.5'))
        cu, i = node(u[j], nx); cv, k = node(v[j], ny)
        half = lambda c, f: f == c + ctx.lit('0.5') if ctx.symbolic else abs(c + 0.5 - round(c + 0.5)) < 1e-6
        ok = ctx.lnot(half(cu, i)) & ctx.lnot(half(cv, k)) if ctx.symbolic else not (half(cu, i) or half(cv, k))
        ctx.when(ok, lambda: ctx.eq(out[j], data[int(k) if not ctx.symbolic else k.astype(int), int(i) if not ctx.symbolic else i.astype(int)], 'value of the closest node', tol=0))
    ctx.forall(R(n), one)

@contract('splines pass through the nodes and those of degree one are bilinear', T + 'interp_grid', symbolic=False, bounded='grids of 5 to 9 by 5 to 9 nodes at drawn spacings')
def spline(ctx):
    r = ctx.rng; k = r.choice([1, 1, 2, 3])
    nx, ny = r.randint(5, 9), r.randint(5, 9)
    x = np.cumsum([r.uniform(0.5, 5) for _ in range(nx)]) + r.uniform(-180, 180); y = np.cumsum([r.uniform(0.5, 5) for _ in range(ny)]) - r.uniform(0, 90)
    f = ctx.arr('data', (ny, nx))
    X, Y = np.meshgrid(x, y)
    o = interp_grid(f, x, y, X, Y, order=k)
    ctx.eq(o, f, 'values at the nodes', tol=1e-9, scale=float(np.abs(f).max()) + 1)
    if k == 1:
        for _ in range(6):
            i, j = r.randrange(ny - 1), r.randrange(nx - 1); a, b = r.random(), r.random()
            p = np.array([x[j] + b * (x[j + 1] - x[j])]); q = np.array([y[i] + a * (y[i + 1] - y[i])])
            e = (1 - a) * ((1 - b) * f[i, j] + b * f[i, j + 1]) + a * ((1 - b) * f[i + 1, j] + b * f[i + 1, j + 1])
            ctx.eq(interp_grid(f, x, y, p, q, order=1)[0], e, 'bilinear value', tol=1e-9, scale=float(np.abs(f).max()) + 1)
    else:
        # splines of a degree have every polynomial of that degree
        c = [[r.uniform(-1, 1) for _ in range(k + 1)] for _ in range(k + 1)]
        u, v = (x - x[0]) / 10, (y - y[0]) / 10
        pol = lambda s, t: sum(c[a][b] * t ** a * s ** b for a in range(k + 1) for b in range(k + 1))
        g = np.array([[pol(s, t) for s in u] for t in v])
        p = np.array([r.uniform(x[0], x[-1]) for _ in range(5)]); q = np.array([r.uniform(y[0], y[-1]) for _ in range(5)])
        e = np.array([pol((a - x[0]) / 10, (b - y[0]) / 10) for a, b in zip(p, q)])
        ctx.eq(interp_grid(g, x, y, p, q, order=k), e, 'polynomial', tol=1e-8, scale=float(np.abs(g).max()) + 1)

@contract('wrapped longitudes are the same meridian from -180 to 180', T + 'wrap_longitudes', symbolic=False, bounded='drawn longitudes of up to four turns', samples=60)
def wrap(ctx):
    n = ctx.rng.randint(1, 6)
    lon = ctx.arr('lon', (n,), draw=(-1440.0, 1440.0))
    if ctx.rng.random() < 0.3: lon[0] = ctx.rng.choice([0.0, 90.0, -90.0, 360.0, 720.0, 45.0, 270.0])
    if ctx.rng.random() < 0.1: lon = np.round(lon)
    o = np.asarray(wrap_longitudes(lon)); ctx.shape(o, (n,))
    ctx.check(np.all(np.abs(o) <= 180 + 1e-9), 'range')
    k = (lon - o) / 360
    ctx.eq(k, np.round(k), 'whole turns', tol=1e-10, scale=1)
    a = float(wrap_longitudes(float(lon[0]))); ctx.eq(a, o[0], 'a number', tol=1e-12, scale=180)

@contract('a color palette file becomes the map of its colors', T + 'from_cpt', symbolic=False, bounded='palettes of one to seven slices in RGB and HSV, with the three extremes given or left out', samples=40)
def palette(ctx):
    import colorsys
    r = ctx.rng; n = r.randint(1, 7)
    model = r.choice(['RGB', 'HSV', None])
    x = np.round(np.cumsum([r.uniform(0.1, 10) for _ in range(n + 1)]) - r.uniform(0, 30), 3)
    def colour():
        if model == 'HSV': return (r.randint(0, 360), round(r.random(), 2), round(r.random(), 2))
        return tuple(r.randint(0, 255) for _ in range(3))
    conv = (lambda c: colorsys.hsv_to_rgb(c[0] / 360, c[1], c[2])) if model == 'HSV' else (lambda c: tuple(v / 255 for v in c))
    cs = [colour() for _ in range(n + 1)]
    L = ['#\tcreated for a check'] + (['# COLOR_MODEL = %s' % model] if model else [])
    f = lambda c: '\t'.join('%g' % v for v in c)
    for i in range(n): L.append('%.3f\t%s\t%.3f\t%s' % (x[i], f(cs[i]), x[i + 1], f(cs[i + 1])))
    ex = {k: colour() for k in 'BFN' if r.random() < 0.6}
    ks = list(ex); r.shuffle(ks)
    L += ['%s\t%s' % (k, f(ex[k])) for k in ks]
    d = ctx.tmpdir(); p = d + '/' + r.choice(['hot.cpt', 'blue_1.CPT', 'a.b.cpt'])
    with open(p, 'w') as fid: fid.write('\n'.join(L) + '\n')
    use = r.random() < 0.7; kw = {} if r.random() < 0.5 else {'N': 512}
    import contextlib, io
    m = from_cpt(p, **({} if use else {'use_extremes': False}), **kw)
    ctx.check(m.name == p.rsplit('/', 1)[1].rsplit('.', 1)[0], 'name'); ctx.check(m.N == kw.get('N', 256), 'number of levels')
    u = (x - x[0]) / (x[-1] - x[0]); C = np.array([conv(c) for c in cs])
    for q in (r.random() for _ in range(8)):
        # levels of the table of the map
        q = int(q * m.N) / (m.N - 1); q = min(q, 1.0)
        e = [np.interp(q, u, C[:, i]) for i in range(3)]
        ctx.eq(np.array(m(int(round(q * (m.N - 1))))[:3]), np.array(e), 'color', tol=1e-6, scale=1)
    for q, c in ((0, cs[0]), (m.N - 1, cs[-1])): ctx.eq(np.array(m(q)[:3]), np.array(conv(c)), 'end color', tol=1e-9, scale=1)
    for k, g, v in (('B', m.get_under, -1), ('F', m.get_over, 2 * m.N), ('N', m.get_bad, None)):
        if use and k in ex: ctx.eq(np.array(g()[:3]), np.array(conv(ex[k])), 'extreme ' + k, tol=1e-9, scale=1)
        elif k == 'B': ctx.eq(np.array(g()[:3]), np.array(conv(cs[0])), 'no extreme B', tol=1e-6, scale=1)
        elif k == 'F': ctx.eq(np.array(g()[:3]), np.array(conv(cs[-1])), 'no extreme F', tol=1e-6, scale=1)
