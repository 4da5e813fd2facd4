import numpy as np
from dv.ctx import contract
from contracts.common import legendre_callee, R
from gravity_toolkit.gen_point_load import gen_point_load
from gravity_toolkit.gen_disc_load import gen_disc_load
from gravity_toolkit.gen_spherical_cap import gen_spherical_cap
PI = np.pi

class Love:
    def __init__(self, hl, kl, ll): self.hl = hl; self.kl = kl; self.ll = ll
    def __iter__(self): return iter((self.hl, self.kl, self.ll))

def constants():
    from gravity_toolkit.units import units
    u = units(lmax=1)
    return u.rad_e, u.rho_e

def load_units(ctx, L, codes):
    """unit option, Love numbers, and the factor of a degree that turns grams per square centimeter times square centimeters
    over 4 pi into coefficients (None for a factor given as a list)"""
    k = ctx.choice('units', ['array', 'list'] + codes)
    love = Love(ctx.arr('hl', (L + 1,)), ctx.arr('kl', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')), ctx.arr('ll', (L + 1,)))
    if k in ('array', 'list'):
        f = ctx.arr('factor', (L + 1,))
        return (f if k == 'array' or ctx.symbolic else list(f)), k, love, lambda l: f[l]
    rad, rho = constants()
    return k, k, love, lambda l: 3 * (1 + love.kl[l]) / (rad * rho * (2 * l + 1))

def polynomials_callee(ctx):
    """normalised Legendre polynomials by their contract; returns p(l, x)"""
    if ctx.symbolic:
        def contracted(lmax, x, ASTYPE=np.float64):
            x = np.atleast_1d(x); n = len(x)
            return ctx.table((lmax + 1, n), lambda l, j: ctx.uf('p', l, x[j]) * np.sqrt(2 * l + 1)), ctx.table((lmax + 1, n), lambda l, j: ctx.uf('dp', l, x[j]))
        ctx.callee('gravity_toolkit.legendre_polynomials', 'legendre_polynomials', contracted)
        return lambda l, x: ctx.uf('p', l, x)
    from numpy.polynomial.legendre import legval
    return lambda l, x: legval(float(x), [0] * l + [1])

def degree_callee(ctx):
    """normalised Legendre functions of one degree by their contract; returns P(l, m, x)"""
    if ctx.symbolic:
        def contracted(l, x, NORMALIZE=False):
            x = np.atleast_1d(x); n = len(x)
            assert NORMALIZE is True
            return ctx.table((l + 1, n), lambda m, j: ctx.uf('P', l, m, x[j]))
        ctx.callee('gravity_toolkit.legendre', 'legendre', contracted)
        return lambda l, m, x: ctx.uf('P', l, m, x)
    from gravity_toolkit.associated_legendre import plm_colombo
    return lambda l, m, x: plm_colombo(max(l, 1), np.array([float(x)]))[0][l, m, 0]

def expect(ctx, Y, L, M, C, S, size=None):
    ctx.check(Y.lmax == L, 'lmax'); ctx.check(Y.mmax == M, 'mmax')
    for k, e in (('clm', C), ('slm', S)):
        a = getattr(Y, k)
        ctx.shape(a, (L + 1, M + 1))
        def one(l, m, a=a, e=e, k=k):
            ctx.when(m <= l, lambda: ctx.eq(a[l, m], e(l, m), k + ' of the load', tol=1e-8, scale=1e-9 if size is None or ctx.symbolic else size(l)))
            ctx.when(m > l, lambda: ctx.eq(a[l, m], 0, k + ' above the degree', tol=0))
        ctx.forall(R(L + 1, M + 1), one)

@contract('coefficients of point loads are the sum over the points', ['gravity_toolkit.gen_point_load.gen_point_load', 'gravity_toolkit.gen_point_load.spherical_harmonic_matrix'])
def points(ctx):
    L = ctx.int('LMAX', 1, draw=(1, 8)); M = ctx.int('MMAX', 0, draw=(0, 8)); ctx.assume(M <= L)
    n = ctx.int('n', 1, draw=(1, 4))
    d = ctx.arr('mass', (n,)); lon = ctx.arr('lon', (n,), draw=(-180.0, 360.0)); lat = ctx.arr('lat', (n,), draw=(-90.0, 90.0))
    old = [ctx.snap(x) for x in (d, lon, lat)]
    U, k, love, f = load_units(ctx, L, [1, 2])
    P = degree_callee(ctx)
    Y = gen_point_load(d, lon, lat, LMAX=L, MMAX=M, UNITS=U, LOVE=love)
    rad, rho = constants()
    q = {1: 1, 2: 10 ** 15}.get(k)
    fac = f if q is None else (lambda l: f(l) / (4 * PI * rad * rad) * q)
    co = lambda trig: lambda l, m: fac(l) * ctx.sum(0, n, lambda j: d[j] * P(l, m, np.cos((90 - lat[j]) * PI / 180)) * trig(m * (lon[j] * PI / 180)))
    # rounding is relative to the size of the summed loads
    size = lambda l: 1e-3 * abs(fac(l)) * float(np.sum(np.abs(d)))
    expect(ctx, Y, L, M, co(np.cos), co(np.sin), size)
    for x, y, w in zip((d, lon, lat), old, ('mass', 'lon', 'lat')): ctx.eq(x, y, w + ' unchanged', tol=0)

@contract('points of arrays of two dimensions are those at the same places', 'gravity_toolkit.gen_point_load.gen_point_load', symbolic=False, bounded='drawn arrays of up to 4 by 4 points, in every order of memory')
def arrays(ctx):
    r = ctx.rng
    L = r.randint(1, 8); sh = (r.randint(1, 4), r.randint(1, 4))
    d = ctx.arr('mass', sh); lon = ctx.arr('lon', sh, draw=(-180.0, 360.0)); lat = ctx.arr('lat', sh, draw=(-90.0, 90.0))
    love = tuple(ctx.arr(k, (L + 1,), draw=(-0.5, 0.5)) for k in ('hl', 'kl', 'll')); u = r.choice([1, 2])
    o = [r.choice([np.asfortranarray, np.ascontiguousarray])(x) for x in (d, lon, lat)]
    Y = gen_point_load(*o, LMAX=L, UNITS=u, LOVE=love); Z = gen_point_load(*[np.array([x[i] for i in np.ndindex(sh)]) for x in (d, lon, lat)], LMAX=L, UNITS=u, LOVE=love)
    s = float(np.abs(Z.clm).max() + np.abs(Z.slm).max()) or 1.0
    ctx.eq(Y.clm, Z.clm, 'clm', tol=1e-12, scale=s); ctx.eq(Y.slm, Z.slm, 'slm', tol=1e-12, scale=s)

def shape(ctx, L, M, Y, sigma, f, x, phi, P, p):
    # the polynomial factor of a uniform load inside the angle with cosine x
    def a(l): return ctx.ite(l > 0, (p(l - 1 if ctx.symbolic or l else 0, x) - p(l + 1, x)) / 2, (1 - x) / 2)
    co = lambda trig: lambda l, m: f(l) * sigma * a(l) * P(l, m) * trig(m * phi)
    expect(ctx, Y, L, M, co(np.cos), co(np.sin))

def place(ctx):
    L = ctx.int('LMAX', 1, draw=(1, 8)); M = ctx.int('MMAX', 0, draw=(0, 8)); ctx.assume(M <= L)
    d = ctx.real('data'); lon = ctx.real('lon', draw=(-180.0, 360.0)); lat = ctx.real('lat', draw=(-90.0, 90.0))
    return L, M, d, lon, lat

def functions(ctx, L, lat):
    """Legendre functions given, or those of the latitude"""
    k = ctx.choice('functions', ['given', 'computed'])
    if k == 'given':
        T = ctx.arr('PLM', (L + 1, L + 1))
        return T, lambda l, m: T[l, m]
    F = legendre_callee(ctx)
    Q = F(L, lambda j: np.cos((90 - lat) * PI / 180), 1)
    return None, lambda l, m: Q(l, m, 0)

@contract('coefficients of a disc are those of a uniform load of its area', 'gravity_toolkit.gen_disc_load.gen_disc_load', timeout=30)
def disc(ctx):
    L, M, d, lon, lat = place(ctx)
    area = ctx.real('area', lo=1 if ctx.symbolic else 10 ** 4, draw=(1e4, 1e7))
    U, k, love, f = load_units(ctx, L, [1, 2, 3])
    p = polynomials_callee(ctx); T, P = functions(ctx, L, lat)
    Y = gen_disc_load(d, lon, lat, area, LMAX=L, MMAX=M, UNITS=U, PLM=T, LOVE=love)
    rad, rho = constants()
    cm2 = area * 10 ** 10
    sigma = {1: d, 2: d * 10 ** 15 / cm2, 3: d / 10}.get(k, d)
    # the integral of a polynomial over the disc has another 2l+1
    g = f if k in ('array', 'list') else (lambda l: f(l) / (2 * l + 1))
    shape(ctx, L, M, Y, sigma, g, 1 - cm2 / (2 * PI * rad * rad), lon * PI / 180, P, p)

@contract('coefficients of a cap are those of a uniform load within its angle', 'gravity_toolkit.gen_spherical_cap.gen_spherical_cap', timeout=30, budget=300)
def cap(ctx):
    L, M, d, lon, lat = place(ctx)
    U, k, love, f = load_units(ctx, L, [1, 2, 3])
    p = polynomials_callee(ctx); T, P = functions(ctx, L, lat)
    rad, rho = constants()
    z = lambda a, b: a if ctx.symbolic else b          # evaluated only where rounding does not dominate
    s = ctx.choice('size', ['RAD_CAP', 'AREA', 'RAD_KM'])
    if s == 'RAD_CAP': v = ctx.real('angle', lo=z(ctx.lit('0.001'), 0.5), hi=90, draw=(0.5, 20.0)); al = v * PI / 180
    elif s == 'AREA': v = ctx.real('area', lo=z(1, 1e14), draw=(1e14, 1e17)); al = np.sqrt(v / PI) / rad
    else: v = ctx.real('km', lo=z(ctx.lit('0.001'), 50.0), draw=(50.0, 1000.0)); al = v * 10 ** 5 / rad
    Y = gen_spherical_cap(d, lon, lat, LMAX=L, MMAX=M, UNITS=U, PLM=T, LOVE=love, **{s: v})
    sigma = {1: d, 2: d * 10 ** 15 / (PI * (al * rad) ** 2), 3: d / 10}.get(k, d)
    g = f if k in ('array', 'list') else (lambda l: f(l) / (2 * l + 1))
    shape(ctx, L, M, Y, sigma, g, np.cos(al), lon * PI / 180, P, p)
