import numpy as np
from dv.ctx import contract
from contracts.common import legendre_callee, R
from gravity_toolkit.gen_stokes import gen_stokes
from gravity_toolkit.gen_harmonics import gen_harmonics
PI = np.pi

class Love:
    def __init__(self, hl, kl, ll): self.hl = hl; self.kl = kl; self.ll = ll
    def __iter__(self): return iter((self.hl, self.kl, self.ll))

def setup(ctx):
    L = ctx.int('LMAX', 1, draw=(1, 6)); M = ctx.int('MMAX', 0, draw=(0, 6)); ctx.assume(M <= L)
    nlon = ctx.int('nlon', 2, draw=(2, 5)); nlat = ctx.int('nlat', 2, draw=(2, 5))
    lon = ctx.arr('lon', (nlon,), lo=-360, hi=360, draw=(-180.0, 360.0)); lat = ctx.arr('lat', (nlat,), draw=(-90.0, 90.0))
    # rows may be latitudes or longitudes
    k = ctx.choice('rows', ['lat', 'lon'])
    d = ctx.arr('data', (nlat, nlon) if k == 'lat' else (nlon, nlat))
    if k == 'lon': ctx.assume(nlon != nlat)
    v = (lambda i, j: d[i, j]) if k == 'lat' else (lambda i, j: d[j, i])
    return L, M, nlon, nlat, lon, lat, d, v

def options(ctx, L, lat, lon):
    """unit option, its factor per degree and the weight of cells of a latitude"""
    from gravity_toolkit.units import units
    k = ctx.choice('units', ['array', 'list', 1, 2, 3])
    kl = ctx.arr('kl', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')); love = Love(ctx.arr('hl', (L + 1,)), kl, ctx.arr('ll', (L + 1,)))
    plon, plat = ctx.snap(lon), ctx.snap(lat)
    r = abs(plon[1] - plon[0]) * PI / 180 * (abs(plat[1] - plat[0]) * PI / 180)
    area = lambda i: np.sin((90 - plat[i]) * PI / 180) * r
    if k in ('array', 'list'):
        f = ctx.arr('factor', (L + 1,))
        return (f if k == 'array' or ctx.symbolic else list(f)), love, (lambda l: f[l]), area
    a = units(lmax=L)
    # a thickness in cm or mm of water weighs rho = 1 per cm
    rho, rad = a.rho_e, a.rad_e
    c = {1: 1, 2: 1, 3: 10}[k]
    f = lambda l: 3 * (1 + kl[l]) / (4 * PI * rad * rho * (2 * l + 1)) / c
    return k, love, f, (area if k != 2 else (lambda i: ctx.lit('1e15') / (rad * rad)))

def both(ctx, P, v, w, f, lon, nlon, nlat, trig):
    # longitudes west of Greenwich have the same angle
    def y(l, m): return f(l) * ctx.sum(0, nlat, lambda i: P(l, m, i) * w(i) * ctx.sum(0, nlon, lambda j: trig(m * lon(j) * PI / 180) * v(i, j)))
    return y

def expect(ctx, Y, L, M, l0, P, v, w, f, lon, nlon, nlat):
    # longitudes from -180 are moved to 0 to 360 before use
    p = lambda j: ctx.ite(lon[j] < 0, lon[j] + 360, lon[j])
    ctx.check(Y.lmax == L, 'lmax'); ctx.check(Y.mmax == M, 'mmax')
    ctx.shape(Y.clm, (L + 1, M + 1)); ctx.shape(Y.slm, (L + 1, M + 1))
    for k, trig in (('clm', np.cos), ('slm', np.sin)):
        e = both(ctx, P, v, w, f, p, nlon, nlat, trig)
        a = getattr(Y, k)
        def one(l, m, a=a, e=e, k=k):
            ctx.when((l >= l0) & (m <= l), lambda: ctx.eq(a[l, m], e(l, m), k + ' weighted sum', tol=1e-9, scale=1e-9))
            ctx.when((l < l0) | (m > l), lambda: ctx.eq(a[l, m], 0, k + ' outside the range', tol=0))
        ctx.forall(R(L + 1, M + 1), one)

@contract('coefficients are the weighted sums of the grid', 'gravity_toolkit.gen_stokes.gen_stokes')
def given(ctx):
    L, M, nlon, nlat, lon, lat, d, v = setup(ctx)
    l0 = ctx.int('LMIN', 0, draw=(0, 3)); ctx.assume(l0 <= L)
    P = ctx.arr('PLM', (L + 1, L + 1, nlat))
    U, love, f, w = options(ctx, L, lat, lon)
    old = [ctx.snap(x) for x in (d, lon, lat, P)]
    Y = gen_stokes(d, lon, lat, LMIN=l0, LMAX=L, MMAX=M, UNITS=U, PLM=P, LOVE=love)
    expect(ctx, Y, L, M, l0, lambda l, m, i: old[3][l, m, i], v, w, f, old[1], nlon, nlat)
    for x, y, k in zip((d, lon, lat, P), old, ('data', 'lon', 'lat', 'PLM')): ctx.eq(x, y, k + ' unchanged', tol=0)

@contract('functions not given are those of the colatitudes', 'gravity_toolkit.gen_stokes.gen_stokes')
def computed(ctx):
    L, M, nlon, nlat, lon, lat, d, v = setup(ctx)
    F = legendre_callee(ctx)
    f = ctx.arr('factor', (L + 1,))
    w = lambda i: np.sin((90 - lat[i]) * PI / 180) * abs(lon[1] - lon[0]) * abs(lat[1] - lat[0]) * (PI / 180) ** 2
    Y = gen_stokes(d, lon, lat, LMIN=0, LMAX=L, MMAX=M, UNITS=f)
    expect(ctx, Y, L, M, 0, F(L, lambda i: np.cos((90 - lat[i]) * PI / 180), nlat), v, w, lambda l: f[l], lon, nlon, nlat)

@contract('the maximum order is the maximum degree unless given', 'gravity_toolkit.gen_stokes.gen_stokes')
def default(ctx):
    L, M, nlon, nlat, lon, lat, d, v = setup(ctx)
    P = ctx.arr('PLM', (L + 1, L + 1, nlat)); f = ctx.arr('factor', (L + 1,))
    Y = gen_stokes(d, lon, lat, LMAX=L, UNITS=f, PLM=P)
    Z = gen_stokes(d, lon, lat, LMIN=0, LMAX=L, MMAX=L, UNITS=f, PLM=P)
    ctx.shape(Y.clm, (L + 1, L + 1)); ctx.eq(Y.clm, Z.clm, 'clm'); ctx.eq(Y.slm, Z.slm, 'slm')

@contract('normalised coefficients are the area means of the grid times the functions', ['gravity_toolkit.gen_harmonics.gen_harmonics', 'gravity_toolkit.gen_harmonics.integration'])
def integral(ctx):
    L, M, nlon, nlat, lon, lat, d, v = setup(ctx)
    g = ctx.choice('functions', ['given', 'computed'])
    old = [ctx.snap(x) for x in (d, lon, lat)]
    w = lambda i: np.sin((90 - old[2][i]) * PI / 180) * abs(old[1][1] - old[1][0]) * abs(old[2][1] - old[2][0]) * (PI / 180) ** 2
    if g == 'given':
        T = ctx.arr('PLM', (L + 1, L + 1, nlat)); P = lambda l, m, i: T[l, m, i]
        Y = gen_harmonics(d, lon, lat, LMAX=L, MMAX=M, PLM=T, METHOD='integration')
    else:
        F = legendre_callee(ctx)
        Y = gen_harmonics(d, lon, lat, LMAX=L, MMAX=M)
        P = F(L, lambda i: np.cos((90 - old[2][i]) * PI / 180), nlat)
    expect(ctx, Y, L, M, 0, P, v, w, lambda l: 1 / (4 * PI), old[1], nlon, nlat)
    for x, y, k in zip((d, lon, lat), old, ('data', 'lon', 'lat')): ctx.eq(x, y, k + ' unchanged', tol=0)

@contract('analysis by Fourier series returns the coefficients of a sum of functions', 'gravity_toolkit.gen_harmonics.fourier', symbolic=False, bounded='even maximum degrees up to 12, grids of cells or of nodes with both poles', samples=30)
def fourier(ctx):
    from gravity_toolkit.harmonic_summation import harmonic_summation
    r = ctx.rng
    L = 2 * r.randint(2, 6); n = r.randint(L + 1, 2 * L + 6); k = r.randint(2 * L + 1, 3 * L + 6)
    lon = np.arange(k) * 360.0 / k + r.choice([0.0, 0.5, 180.0 / k])
    lat = 90 - (np.arange(n) + 0.5) * 180 / n if r.random() < 0.5 else np.linspace(90, -90, n + 1)
    if r.random() < 0.5: lat = lat[::-1].copy()
    c = ctx.arr('clm', (L + 1, L + 1)); s = ctx.arr('slm', (L + 1, L + 1))
    i = np.arange(L + 1); u = i[None, :] <= i[:, None]
    c[~u] = 0; s[~u] = 0; s[:, 0] = 0
    g = harmonic_summation(c, s, lon, lat, LMIN=0, LMAX=L, MMAX=L)
    p = g.copy()
    Y = gen_harmonics(g if k != n and r.random() < 0.5 and len(lon) != len(lat) else g.T.copy(), lon, lat, LMAX=L, METHOD='fourier')
    ctx.shape(Y.clm, (L + 1, L + 1))
    ctx.eq(Y.clm, c, 'clm', tol=1e-8); ctx.eq(Y.slm, s, 'slm', tol=1e-8)
    ctx.eq(g, p, 'data unchanged', tol=0)
