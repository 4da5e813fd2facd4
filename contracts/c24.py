import numpy as np
from dv.ctx import contract
from contracts.common import R
from gravity_toolkit.mascons import to_gsfc, to_jpl, from_gsfc, from_jpl
M = 'gravity_toolkit.mascons.'
PI = np.pi

def regular(ctx, west=-180):
    """latitudes and longitudes of cell centres"""
    if ctx.symbolic:
        ny, nx = ctx.int('ny', 2), ctx.int('nx', 2)
        return ny, nx, ctx.arr('lat', (ny,), lo=-90, hi=90), ctx.arr('lon', (nx,), lo=west, hi=west + 360)
    s = ctx.rng.choice([5.0, 10.0, 15.0, 7.5])
    lat = np.arange(90 - s / 2, -90, -s) if ctx.rng.random() < 0.5 else np.arange(-90 + s / 2, 90, s)
    lon = np.arange(west + s / 2, west + 360, s)
    return len(lat), len(lon), lat, lon

def average(ctx, g, lat, I, J):
    """mean weighted by the cosine of latitude over the cells (I, J) selected by two masks: (numerator, denominator)"""
    i, = np.nonzero(I); j, = np.nonzero(J)
    ni, nj = ctx.len(i), ctx.len(j)
    num = ctx.sum(0, ni, lambda a: ctx.sum(0, nj, lambda b: np.cos(lat[i[a]] * PI / 180) * g[i[a], j[b]]))
    den = ctx.sum(0, ni, lambda a: np.cos(lat[i[a]] * PI / 180)) * nj
    return num, den, ni, nj

def jpl_bounds(ctx, n):
    b = ctx.arr('lat_bound', (n, 2), lo=-90, hi=90); c = ctx.arr('lon_bound', (n, 4), lo=0, hi=360)
    return b, c

@contract('a JPL mascon is the weighted mean of the cells within its bounds', M + 'to_jpl', timeout=30, budget=200)
def jpl(ctx):
    ny, nx, lat, lon = regular(ctx, 0)
    n = ctx.int('n', 1, draw=(1, 12))
    if ctx.symbolic: b, c = jpl_bounds(ctx, n)
    else: b, c = drawn_jpl(ctx.rng, n, abs(lat[1] - lat[0]) / 2)
    g = ctx.arr('g', (ny, nx))
    old = [ctx.snap(v) for v in (g, lat, lon, b, c)]
    x = to_jpl(g, lon, lat, c, b)
    for k in ('data', 'lon', 'lat', 'mask'): ctx.shape(x[k], (n,))
    def one(k):
        I = (lat >= b[k, 1]) & (lat < b[k, 0]); J = (lon >= c[k, 0]) & (lon < c[k, 2])
        num, den, ni, nj = average(ctx, g, lat, I, J)
        ctx.check(x['mask'][k] == (ni == 0), 'mascons without cells are masked')
        ctx.when(ni == 0, lambda: ctx.eq(x['data'][k], 0, 'masked mascons are zero', tol=0))
        ctx.when((ni > 0) & (nj > 0) & (den > 0), lambda: ctx.eq(x['data'][k] * den, num, 'weighted mean'))
        pole = (b[k, 0] == 90) | (b[k, 0] == -90) | (b[k, 1] == 90) | (b[k, 1] == -90)
        south = (b[k, 1] == 90) | (b[k, 1] == -90)
        ctx.eq(x['lat'][k], ctx.ite(pole, ctx.ite(south, b[k, 1], b[k, 0]), (b[k, 0] + b[k, 1]) / 2), 'latitude of the centre')
        ctx.eq(x['lon'][k], ctx.ite(pole, 0, (c[k, 1] + c[k, 2]) / 2), 'longitude of the centre')
    ctx.forall(R(n), one)
    for v, o, s in zip((g, lat, lon, b, c), old, ('grid', 'latitudes', 'longitudes', 'bounds', 'bounds')): ctx.eq(v, o, s + ' unchanged', tol=0)

def drawn_jpl(r, n, s):
    """bounds, half of the time at multiples of half the spacing of the grid: cells with their centre at a bound"""
    b = np.zeros((n, 2)); c = np.zeros((n, 4))
    for k in range(n):
        la = r.choice([-90.0, 87.0, r.uniform(-88, 80)]); h = r.choice([3.0, 10.0, 30.0]); lo = r.uniform(0, 300)
        b[k] = [min(la + h, 90.0), la]; c[k] = [lo, lo, lo + r.choice([10.0, 30.0, 60.0]), 0]; c[k, 3] = c[k, 2]
    if r.random() < 0.5: b, c = np.clip(np.round(b / s) * s, -90, 90), np.round(c / s) * s
    return b, c

# ---- GSFC: centres and spans
def gsfc_cells(ctx, s=None):
    n = ctx.int('n', 1, draw=(1, 12))
    if ctx.symbolic:
        return n, ctx.arr('lon_center', (n,), lo=-180, hi=360), ctx.arr('lat_center', (n,), lo=-90, hi=90), ctx.arr('lon_span', (n,), lo=0, hi=180), ctx.arr('lat_span', (n,), lo=0, hi=90)
    lc = ctx.arr('lon_center', (n,), draw=(-180.0, 360.0), sprinkle=(180.0, -180.0, 0.0, 175.0, -175.0, 185.0))
    la = ctx.arr('lat_center', (n,), draw=(-80.0, 80.0), sprinkle=(90.0, -90.0))
    ls, ws = ctx.arr('lon_span', (n,), draw=(12.0, 180.0)), ctx.arr('lat_span', (n,), draw=(12.0, 40.0))
    if ctx.rng.random() < 0.5:
        # centres and spans at multiples of the spacing of the grid: cells with their centre at a bound
        lc, la = np.round(lc / s) * s, np.where(np.abs(la) == 90, la, np.round(la / s) * s)
        ls, ws = np.maximum(np.round(ls / s), 1) * s, np.maximum(np.round(ws / s), 1) * s
        if ctx.rng.random() < 0.5: ls[:] += s * (np.arange(n) % 2)
    return n, lc, la, ls, ws

def within(ctx, lon, lat, lc, la, ls, ws):
    """masks of the latitudes and longitudes (from -180 to 180) within a cell"""
    pole = (la == 90) | (la == -90)
    c = ctx.ite(lc > 180, lc - 360, lc)
    h = ctx.ite(pole, ws, ws / 2)
    I = (lat >= la - h) & (lat < la + h)
    lo, hi = c - ls / 2, c + ls / 2
    J = pole | ((lon >= lo) & (lon < hi)) | ((lon + 360 >= lo) & (lon + 360 < hi)) | ((lon - 360 >= lo) & (lon - 360 < hi))
    return I, J

@contract('a GSFC mascon is the weighted mean of the cells within its bounds', M + 'to_gsfc', timeout=30, budget=200)
def gsfc(ctx):
    ny, nx, lat, lon = regular(ctx, -180)
    n, lc, la, ls, ws = gsfc_cells(ctx, None if ctx.symbolic else abs(lat[1] - lat[0]))
    g = ctx.arr('g', (ny, nx))
    old = [ctx.snap(v) for v in (g, lat, lon, lc, la, ls, ws)]
    x = to_gsfc(g, lon, lat, lc, la, ls, ws)
    for k in ('data', 'lon_center', 'lat_center'): ctx.shape(x[k], (n,))
    def one(k):
        I, J = within(ctx, lon, lat, old[3][k], old[4][k], old[5][k], old[6][k])
        num, den, ni, nj = average(ctx, g, lat, I, J)
        ctx.when((ni > 0) & (nj > 0) & (den > 0), lambda: ctx.eq(x['data'][k] * den, num, 'weighted mean'))
        ctx.eq(x['lat_center'][k], old[4][k], 'latitude of the centre', tol=0)
        ctx.eq(x['lon_center'][k], ctx.ite(old[3][k] > 180, old[3][k] - 360, old[3][k]), 'longitude of the centre')
    ctx.forall(R(n), one)
    for v, o in zip((g, lat, lon, lc, la, ls, ws), old): ctx.eq(v, o, 'inputs unchanged', tol=0)

# ---- grids from mascons
def later(ctx, n, member, v):
    """value of the last mascon that holds a cell, zero if there is none"""
    out = 0
    for k in range(n): out = ctx.ite(member(k), v[k], out)
    return out

def spacing(ctx): return ctx.choice('spacing', [30.0, 60.0]) if ctx.symbolic else ctx.choice('spacing', [30.0, 10.0, 5.0, 7.5, 1.0])

@contract('a grid takes the value of the GSFC mascon that holds each cell', M + 'from_gsfc', timeout=30, budget=200)
def grid_gsfc(ctx):
    s = spacing(ctx)
    if ctx.symbolic:
        n = ctx.choice('n', [1, 2])
        lc, la, ls, ws = ctx.arr('lon_center', (n,), lo=-180, hi=360), ctx.arr('lat_center', (n,), lo=-90, hi=90), ctx.arr('lon_span', (n,), lo=0, hi=180), ctx.arr('lat_span', (n,), lo=0, hi=90)
    else: n, lc, la, ls, ws = gsfc_cells(ctx, s)
    v = ctx.arr('v', (n,)); T = ctx.choice('transpose', [False, True])
    old = [ctx.snap(u) for u in (v, lc, la, ls, ws)]
    x = from_gsfc(v, s, lc, la, ls, ws, **({'transpose': True} if T else {}))
    nx, ny = int(round(360 / s)), int(round(180 / s))
    ctx.shape(x, (nx, ny) if T else (ny, nx))
    def one(i, j):
        lat, lon = 90 - s / 2 - i * s, -180 + s / 2 + j * s
        def member(k):
            I, J = within(ctx, lon, lat, old[1][k], old[2][k], old[3][k], old[4][k])
            return I & J
        ctx.eq(x[j, i] if T else x[i, j], later(ctx, n, member, old[0]), 'value of the mascon', tol=0)
    ctx.forall([(0, ny), (0, nx)], one)
    for u, o in zip((v, lc, la, ls, ws), old): ctx.eq(u, o, 'inputs unchanged', tol=0)

@contract('a grid takes the value of the JPL mascon that holds each cell', M + 'from_jpl', timeout=30, budget=200)
def grid_jpl(ctx):
    s = spacing(ctx)
    if ctx.symbolic: n = ctx.choice('n', [1, 2]); b, c = jpl_bounds(ctx, n)
    else: n = ctx.int('n', 1, draw=(1, 12)); b, c = drawn_jpl(ctx.rng, n, s / 2)
    v = ctx.arr('v', (n,)); T = ctx.choice('transpose', [False, True])
    old = [ctx.snap(u) for u in (v, b, c)]
    x = from_jpl(v, s, c, b, **({'transpose': True} if T else {}))
    nx, ny = int(round(360 / s)), int(round(180 / s))
    ctx.shape(x, (nx, ny) if T else (ny, nx))
    def one(i, j):
        lat, lon = -90 + s / 2 + i * s, s / 2 + j * s
        member = lambda k: (lat >= old[1][k, 1]) & (lat < old[1][k, 0]) & (lon >= old[2][k, 0]) & (lon < old[2][k, 2])
        ctx.eq(x[j, i] if T else x[i, j], later(ctx, n, member, old[0]), 'value of the mascon', tol=0)
    ctx.forall([(0, ny), (0, nx)], one)
    for u, o in zip((v, b, c), old): ctx.eq(u, o, 'inputs unchanged', tol=0)

# ---- round trip
@contract('averaging a grid made from mascons gives the mascons back', [M + 'from_gsfc', M + 'to_gsfc', M + 'from_jpl', M + 'to_jpl'], symbolic=False, bounded='drawn partitions of the sphere')
def roundtrip(ctx):
    r = ctx.rng; s = r.choice([5.0, 7.5, 10.0])
    h = r.choice([30.0, 45.0]); cells = []
    for la in np.arange(-90, 90, h):
        w = r.choice([30.0, 60.0, 90.0, 180.0])
        for lo in np.arange(0, 360, w): cells.append((la, la + h, lo, lo + w))
    c = np.array(cells); n = len(c); v = np.array([r.uniform(-9, 9) for _ in range(n)])
    b = np.stack([c[:, 1], c[:, 0]], 1); q = np.stack([c[:, 2], c[:, 2], c[:, 3], c[:, 3]], 1)
    g = from_jpl(v, s, q, b)
    x = to_jpl(g, np.arange(s / 2, 360, s), np.arange(-90 + s / 2, 90, s), q, b)
    ctx.eq(x['data'], v, 'JPL mascons'); ctx.check(not x['mask'].any(), 'no mascon is masked')
    a = ((c[:, 2] + c[:, 3]) / 2, (c[:, 0] + c[:, 1]) / 2, c[:, 3] - c[:, 2], c[:, 1] - c[:, 0])
    g = from_gsfc(v, s, *a)
    x = to_gsfc(g, np.arange(-180 + s / 2, 180, s), np.arange(90 - s / 2, -90, -s), *a)
    ctx.eq(x['data'], v, 'GSFC mascons')
