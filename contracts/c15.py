import numpy as np
from dv.ctx import contract
from contracts.common import legendre_callee, gauss_callee, R
from gravity_toolkit.harmonic_summation import harmonic_summation, harmonic_transform, stokes_summation
HS = 'gravity_toolkit.harmonic_summation.'
PI = np.pi

def setup(ctx, plm):
    """coefficients, coordinates and a table of Legendre functions"""
    L = ctx.int('LMAX', 1, draw=(1, 6)); M = ctx.int('MMAX', 0, draw=(0, 6)); ctx.assume(M <= L)
    l0 = ctx.int('LMIN', 0, draw=(0, 3)); ctx.assume(l0 <= L)
    nlon = ctx.int('nlon', 2, draw=(2, 4)); nlat = ctx.int('nlat', 2, draw=(2, 4))
    lon = ctx.arr('lon', (nlon,), draw=(-180.0, 360.0)); lat = ctx.arr('lat', (nlat,), draw=(-90.0, 90.0))
    # coefficients may be given beyond the maximum degree and order
    x = ctx.int('extra', 0, draw=(0, 2))
    c = ctx.arr('clm', (L + 1 + x, M + 1 + x)); s = ctx.arr('slm', (L + 1 + x, M + 1 + x))
    P = legendre_table(ctx, L, M, nlat) if plm else None
    return L, M, l0, lon, lat, nlon, nlat, c, s, P

def legendre_table(ctx, L, M, n):
    return ctx.arr('PLM', (L + 1, M + 1, n))

def double_sum(ctx, P, C, S, phi, l0, L, M, i, j):
    return ctx.sum(0, M + 1, lambda m: np.cos(m * phi(i)) * ctx.sum(l0, L + 1, lambda l: P(l, m, j) * C(l, m))) + \
        ctx.sum(0, M + 1, lambda m: np.sin(m * phi(i)) * ctx.sum(l0, L + 1, lambda l: P(l, m, j) * S(l, m)))

@contract('the grid is the double sum with the given functions', HS + 'harmonic_summation')
def given(ctx):
    L, M, l0, lon, lat, nlon, nlat, c, s, P = setup(ctx, True)
    pc, ps, plon, plat, pp = [ctx.snap(v) for v in (c, s, lon, lat, P)]
    g = harmonic_summation(c, s, lon, lat, LMIN=l0, LMAX=L, MMAX=M, PLM=P)
    ctx.shape(g, (nlon, nlat))
    ctx.forall(R(nlon, nlat), lambda i, j: ctx.eq(g[i, j], double_sum(ctx, lambda l, m, j: pp[l, m, j], lambda l, m: pc[l, m], lambda l, m: ps[l, m], lambda i: plon[i] * PI / 180, l0, L, M, i, j), 'double sum'))
    for v, w, k in ((c, pc, 'clm'), (s, ps, 'slm'), (lon, plon, 'lon'), (lat, plat, 'lat'), (P, pp, 'PLM')): ctx.eq(v, w, k + ' unchanged', tol=0)

@contract('the grid is the double sum with the functions of the latitudes', HS + 'harmonic_summation')
def computed(ctx):
    L, M, l0, lon, lat, nlon, nlat, c, s, _ = setup(ctx, False)
    F = legendre_callee(ctx)
    g = harmonic_summation(c, s, lon, lat, LMIN=l0, LMAX=L, MMAX=M)
    ctx.shape(g, (nlon, nlat))
    P = F(L, lambda j: np.cos((90 - lat[j]) * PI / 180), nlat)
    ctx.forall(R(nlon, nlat), lambda i, j: ctx.eq(g[i, j], double_sum(ctx, P, lambda l, m: c[l, m], lambda l, m: s[l, m], lambda i: lon[i] * PI / 180, l0, L, M, i, j), 'double sum'))

@contract('the whole range of the coefficients is summed when no maximum degree is given', HS + 'harmonic_summation')
def size(ctx):
    L = ctx.int('L', 1, draw=(1, 6)); l0 = ctx.int('LMIN', 0, draw=(0, 3)); ctx.assume(l0 <= L)
    nlon = ctx.int('nlon', 2, draw=(2, 4)); nlat = ctx.int('nlat', 2, draw=(2, 4))
    lon = ctx.arr('lon', (nlon,), draw=(-180.0, 360.0)); lat = ctx.arr('lat', (nlat,), draw=(-90.0, 90.0))
    c = ctx.arr('clm', (L + 1, L + 1)); s = ctx.arr('slm', (L + 1, L + 1)); P = legendre_table(ctx, L, L, nlat)
    g = harmonic_summation(c, s, lon, lat, LMIN=l0, LMAX=0, PLM=P)
    ctx.shape(g, (nlon, nlat))
    ctx.forall(R(nlon, nlat), lambda i, j: ctx.eq(g[i, j], double_sum(ctx, lambda l, m, j: P[l, m, j], lambda l, m: c[l, m], lambda l, m: s[l, m], lambda i: lon[i] * PI / 180, l0, L, L, i, j), 'double sum'))

UNITS = ['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar', 'cmVCU', 'mmwe', 'mmCH', 'mVCU', 'Pa']

def unit_option(ctx, L):
    """a unit option in one of its forms, and the factor it stands for"""
    from gravity_toolkit.units import units
    k = ctx.choice('units', ['array', 'list', 'code', 'name'])
    love = (ctx.arr('hl', (L + 1,)), ctx.arr('kl', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')), ctx.arr('ll', (L + 1,)))
    if k in ('array', 'list'):
        f = ctx.arr('factor', (L + 1,))
        if k == 'list':
            if ctx.symbolic: k = 'array'
            else: return list(f), love, lambda l: f[l]
        return f, love, lambda l: f[l]
    u = units(lmax=L).harmonic(*love)
    if k == 'code':
        n = ctx.choice('code', [1, 2, 3, 4, 5, 6])
        d = u.get(['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar', 'cmVCU'][n])
        return n, love, lambda l: d[l]
    n = ctx.choice('name', UNITS[1:])
    d = getattr(u, n)
    return n, love, lambda l: d[l]

@contract('the smoothed grid in given units is the weighted double sum', HS + 'stokes_summation')
def stokes(ctx):
    L, M, l0, lon, lat, nlon, nlat, c, s, P = setup(ctx, True)
    U, love, f = unit_option(ctx, L)
    rad = ctx.choice('radius', [0, 300])
    W = gauss_callee(ctx)
    w = W(rad, L) if rad else None
    g = stokes_summation(c, s, lon, lat, LMIN=l0, LMAX=L, MMAX=M, RAD=rad, UNITS=U, LOVE=love, PLM=P)
    k = (lambda l: 2 * PI * w(l) * f(l)) if rad else f
    ctx.shape(g, (nlon, nlat))
    ctx.forall(R(nlon, nlat), lambda i, j: ctx.eq(g[i, j], double_sum(ctx, lambda l, m, j: P[l, m, j], lambda l, m: k(l) * c[l, m], lambda l, m: k(l) * s[l, m], lambda i: lon[i] * PI / 180, l0, L, M, i, j), 'double sum'))

@contract('the grid by Fourier transform is the double sum', [HS + 'harmonic_transform', HS + 'harmonic_summation'], symbolic=False, bounded='maximum degree up to 20, up to 73 longitudes (fast Fourier transform)', samples=60)
def transform(ctx):
    r = ctx.rng
    L = r.randint(1, 20); M = r.randint(0, L); l0 = r.randint(0, min(L, 3))
    n = r.randint(2 * M + 1, 2 * M + 30); lon = np.linspace(0, 360, n + 1)
    lat = ctx.arr('lat', (r.randint(2, 6),), draw=(-90.0, 90.0))
    c = ctx.arr('clm', (L + 1, L + 1)); s = ctx.arr('slm', (L + 1, L + 1))
    i = np.arange(L + 1); u = i[None, :] <= i[:, None]
    c[~u] = 0; s[~u] = 0; s[:, 0] = 0
    pc, ps = c.copy(), s.copy()
    from gravity_toolkit.associated_legendre import plm_colombo
    kw = {}
    T = plm_colombo(L, np.cos(np.radians(90 - lat)))[0]
    if r.random() < 0.5: kw['PLM'] = T[:, :M + 1, :]
    elif M < L: M = L; n = max(n, 2 * L + 1); lon = np.linspace(0, 360, n + 1)
    g = harmonic_transform(c, s, lon, lat, LMIN=l0, LMAX=L, MMAX=M, **kw)
    ctx.shape(g, (len(lon), len(lat)))
    for a in range(len(lon)):
        for b in range(len(lat)):
            p = np.radians(lon[a])
            e = sum(T[l, m, b] * (pc[l, m] * np.cos(m * p) + ps[l, m] * np.sin(m * p)) for l in range(l0, L + 1) for m in range(0, min(l, M) + 1))
            ctx.eq(g[a, b], e, 'double sum', tol=1e-8)
    ctx.eq(c, pc, 'clm unchanged', tol=0); ctx.eq(s, ps, 'slm unchanged', tol=0)

class Love:
    def __init__(self, hl, kl, ll): self.hl = hl; self.kl = kl; self.ll = ll
    def __iter__(self): return iter((self.hl, self.kl, self.ll))

def table(L, lat):
    from gravity_toolkit.associated_legendre import plm_colombo
    return plm_colombo(L, np.cos(np.radians(90 - np.asarray(lat))))

@contract('the sum at points is the double sum', ['gravity_toolkit.clenshaw_summation.clenshaw_summation', 'gravity_toolkit.clenshaw_summation.clenshaw_s_m'], symbolic=False, bounded='maximum degree up to 40, up to 5 points', samples=60)
def points(ctx):
    from gravity_toolkit.clenshaw_summation import clenshaw_summation
    from gravity_toolkit.gauss_weights import gauss_weights
    r = ctx.rng
    L = r.choice([1, 2, 3, 4, r.randint(5, 40)]); n = r.randint(2, 5)
    lon = ctx.arr('lon', (n,), draw=(-180.0, 360.0)); lat = ctx.arr('lat', (n,), draw=(-90.0, 90.0), sprinkle=(-90.0, 90.0, 0.0))
    x = r.randint(0, 2)
    c = ctx.arr('clm', (L + 1 + x, L + 1 + x)); s = ctx.arr('slm', (L + 1 + x, L + 1 + x))
    i = np.arange(L + 1 + x); u = i[None, :] <= i[:, None]
    c[~u] = 0; s[~u] = 0; s[:, 0] = 0
    pc, ps = c.copy(), s.copy()
    U, love, f = unit_option(ctx, L)
    rad = ctx.choice('radius', [0, 300])
    w = 2 * PI * gauss_weights(rad, L) if rad else np.ones(L + 1)
    g = clenshaw_summation(c, s, lon, lat, RAD=rad, UNITS=U, LMAX=L, LOVE=love)
    ctx.shape(g, (n,))
    T = table(L, lat)[0]
    for k in range(n):
        p = np.radians(lon[k])
        e = sum(w[l] * f(l) * T[l, m, k] * (pc[l, m] * np.cos(m * p) + ps[l, m] * np.sin(m * p)) for l in range(L + 1) for m in range(l + 1))
        ctx.eq(g[k], e, 'double sum', tol=1e-8, scale=max(1.0, max(abs(f(l)) for l in range(L + 1))))
    ctx.eq(c, pc, 'clm unchanged', tol=0); ctx.eq(s, ps, 'slm unchanged', tol=0)

@contract('fourier coefficients sum to the Legendre functions', 'gravity_toolkit.fourier_legendre.fourier_legendre', symbolic=False, bounded='even maximum degrees from 4 to 24', samples=20)
def fourier(ctx):
    from gravity_toolkit.fourier_legendre import fourier_legendre
    L = 2 * ctx.rng.randint(2, 12)
    lat = ctx.arr('lat', (3,), draw=(-89.0, 89.0))
    F = fourier_legendre(L, L)
    T = table(L, lat)[0]
    ctx.shape(F, (L + 1, L + 1, L + 1))
    k = np.arange(L + 1)
    for j in range(3):
        th = np.radians(90 - lat[j])
        for l in range(L + 1):
            for m in range(l + 1):
                ctx.eq(np.sum(F[l, m] * (np.sin(k * th) if m % 2 else np.cos(k * th))), T[l, m, j], 'degree %d order %d' % (l, m), tol=1e-8)

@contract('gradients are the derivatives of the sum', ['gravity_toolkit.harmonic_gradients.harmonic_gradients', 'gravity_toolkit.fourier_legendre.legendre_gradient'], symbolic=False, bounded='even maximum degrees from 4 to 16', samples=20)
def gradients(ctx):
    from gravity_toolkit.harmonic_gradients import harmonic_gradients
    r = ctx.rng
    L = 2 * r.randint(2, 8); l0 = r.randint(0, 3); n, k = r.randint(2, 4), r.randint(2, 4)
    lon = ctx.arr('lon', (n,), draw=(-180.0, 360.0)); lat = ctx.arr('lat', (k,), draw=(-89.0, 89.0))
    c = ctx.arr('clm', (L + 1, L + 1)); s = ctx.arr('slm', (L + 1, L + 1)); s[:, 0] = 0
    g = harmonic_gradients(c, s, lon, lat, LMIN=l0, LMAX=L)
    ctx.shape(g, (n, k, 2))
    T, dT = table(L, lat)
    for i in range(n):
        p = np.radians(lon[i])
        for j in range(k):
            lm = [(l, m) for l in range(l0, L + 1) for m in range(l + 1)]
            e = sum(m * T[l, m, j] * (s[l, m] * np.cos(m * p) - c[l, m] * np.sin(m * p)) for l, m in lm) / np.cos(np.radians(lat[j]))
            ctx.eq(g[i, j, 0], e, 'eastward', tol=1e-7)
            e = sum(-dT[l, m, j] * (c[l, m] * np.cos(m * p) + s[l, m] * np.sin(m * p)) for l, m in lm)
            ctx.eq(g[i, j, 1], e, 'northward', tol=1e-7)

@contract('geostrophic currents are the sum of the differences of neighbouring degrees', 'gravity_toolkit.harmonic_gradients.geostrophic_currents', symbolic=False, bounded='maximum degree up to 6')
def currents(ctx):
    from gravity_toolkit.harmonic_gradients import geostrophic_currents
    from gravity_toolkit.units import units
    L = ctx.int('LMAX', 2, draw=(2, 6)); M = ctx.int('MMAX', 0, draw=(0, 6)); ctx.assume(M <= L)
    l0 = ctx.int('LMIN', 0, draw=(0, 3)); ctx.assume(l0 <= L)
    nlon = ctx.int('nlon', 2, draw=(2, 4)); nlat = ctx.int('nlat', 2, draw=(2, 4))
    lon = ctx.arr('lon', (nlon,), draw=(-180.0, 360.0)); lat = ctx.arr('lat', (nlat,), draw=(-89.0, 89.0))
    c = ctx.arr('clm', (L + 1, M + 1)); s = ctx.arr('slm', (L + 1, M + 1))
    kl = ctx.arr('kl', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')); hl = ctx.arr('hl', (L + 1,)); ll = ctx.arr('ll', (L + 1,))
    love = Love(hl, kl, ll)
    P = legendre_table(ctx, L, M, nlat)
    rad = ctx.choice('radius', [0, 300]); rho = ctx.real('density', lo=1, hi=2, draw=(1.0, 2.0))
    W = gauss_callee(ctx); w = W(rad, L) if rad else None
    pc, ps = ctx.snap(c), ctx.snap(s)
    g = geostrophic_currents(c, s, lon, lat, LMIN=l0, LMAX=L, MMAX=M, RAD=rad, DENSITY=rho, LOVE=love, PLM=P)
    ctx.shape(g, (nlon, nlat, 2))
    u = units(lmax=L).harmonic(*love)
    co = lambda l: u.g_wmo * u.rho_e / (6 * u.omega * rho) * (2 * PI * w(l) if rad else 1)
    def z(A):
        def f(l, m):
            a = (l - 1) / (1 + kl[l - 1]) * np.sqrt((l * l - m * m) * (2 * l - 1) / (2 * l + 1)) * A[l - 1, m]
            b = (l + 2) / (1 + kl[l + 1]) * np.sqrt(((l + 1) * (l + 1) - m * m) * (2 * l + 3) / (2 * l + 1)) * A[l + 1, m]
            return co(l) * (a - b)
        return f
    def sums(C, S, lo, hi, i, j):
        ph = lon[i] * PI / 180
        a = ctx.sum(0, M + 1, lambda m: np.cos(m * ph) * ctx.sum(lo, hi, lambda l: ctx.ite(m <= l, P[l, m, j] * C(l, m), 0)))
        return a + ctx.sum(0, M + 1, lambda m: np.sin(m * ph) * ctx.sum(lo, hi, lambda l: ctx.ite(m <= l, P[l, m, j] * S(l, m), 0)))
    def one(i, j):
        th = (90 - lat[j]) * PI / 180
        d = np.cos(th) * np.sin(th)
        lo = ctx.ite(l0 > 1, l0, 1)
        ctx.eq(g[i, j, 0] * d, sums(z(pc), z(ps), lo, L, i, j), 'zonal', tol=1e-6)
        y = lambda l, m: co(l) * m * (2 * l + 1) / (1 + kl[l])
        ctx.eq(g[i, j, 1] * d, sums(lambda l, m: -y(l, m) * ps[l, m], lambda l, m: y(l, m) * pc[l, m], l0, L + 1, i, j), 'meridional', tol=1e-6)
    ctx.forall(R(nlon, nlat), one)
