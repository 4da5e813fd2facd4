import pathlib, numpy as np
from dv.ctx import contract
from contracts.common import R
from gravity_toolkit.sea_level_equation import sea_level_equation, clenshaw_s_m
from gravity_toolkit.associated_legendre import plm_colombo
from gravity_toolkit.gen_harmonics import gen_harmonics
from gravity_toolkit.gen_stokes import gen_stokes
from gravity_toolkit.units import units
from gravity_toolkit.ocean_stokes import ocean_stokes, land_stokes, find_isolated_points
import netCDF4
S = 'gravity_toolkit.sea_level_equation.'
O = 'gravity_toolkit.ocean_stokes.'
PI = np.pi

# ---- sums of each order
@contract('the sums of an order are those of the Legendre functions, small degrees', S + 'clenshaw_s_m', samples=10, timeout=30, budget=200, bounded='maximum degree up to 4, every argument and all coefficients')
def order_small(ctx):
    L = ctx.choice('lmax', [1, 2, 3, 4]); m = ctx.choice('m', [0, 1, 2, 3, 4])
    if m > L: return
    t = ctx.arr('t', (1,), lo=ctx.lit('-0.999'), hi=ctx.lit('0.999'), draw=(-0.99, 0.99), sprinkle=(0.0,))
    order_check(ctx, L, m, t, 1)

def order_check(ctx, L, m, t, n, tol=1e-8, **kw):
    c, s = ctx.arr('clm', (L + 1, L + 1)), ctx.arr('slm', (L + 1, L + 1))
    x = clenshaw_s_m(t, m, c, s, L, **kw) if kw else clenshaw_s_m(t, m, c, s, L, SCALE=1)
    P, _ = plm_colombo(L, t)
    ctx.shape(x, (n, 2))
    for j in range(n):
        u = np.sqrt(1 - t[j] * t[j])
        # the functions of order m are the sectoral one times the factor given by the sums
        a = sum(c[l, m] * P[l, m, j] for l in range(m, L + 1)); b = sum(s[l, m] * P[l, m, j] for l in range(m, L + 1))
        w = 1 + (sum(abs(P[l, m, j]) for l in range(m, L + 1)) if not ctx.symbolic else 0)
        ctx.eq(x[j, 0] * P[m, m, j], a, 'cosine sum', tol=tol, scale=w)
        if m: ctx.eq(x[j, 1] * P[m, m, j], b, 'sine sum', tol=tol, scale=w)

@contract('the sums of an order are those of the Legendre functions', S + 'clenshaw_s_m', symbolic=False, bounded='drawn coefficients to degree 60', samples=60)
def order(ctx):
    L = ctx.choice('lmax', [1, 2, 3, 5, 10, 30, 60]); m = ctx.rng.choice([0, 1, L - 1, L, max(L - 2, 0), ctx.rng.randint(0, L)]); n = ctx.rng.randint(1, 4)
    t = ctx.arr('t', (n,), draw=(-0.99, 0.99), sprinkle=(0.0,))
    kw = ctx.choice('precision', [{'SCALE': 1}, {}, {'ASTYPE': np.float64, 'SCALE': 1e-200}])
    order_check(ctx, L, m, t, n, tol=1e-6, **(kw or {'SCALE': 1e-280}))

# ---- the equation
def fluid(k):
    if k == 0: return 0.00328475 / 0.00348118
    if k == 1: return 3.0 * 398004418e6 * (1 / 305.51) * 0.33068 / (6371e3 ** 3 * 7.292115e-5 ** 2)
    if k == 2: return 2.0 / 298.257223563 * 9.80665 / (7.292115e-5 ** 2 * 6371e3) - 1.0
    if k == 3: return 0.942
    return k[0]
def body(k):
    if k == 0: return 0.298, 0.604
    if k == 1: return 0.3055, 0.6149
    return k

def passes(c, s, lon, lat, land, L, love, k2b, h2b, klf, polar, most):
    """direct solution of the equation: sea level of every pass up to convergence"""
    h, k, _ = [np.asarray(v, dtype=float) for v in love]
    f = units(lmax=L); rho, a = f.rho_e, f.rad_e
    ocean = 1.0 - land
    l = np.arange(L + 1)
    H = np.repeat((3.0 * (1 + k[:L + 1] - h[:L + 1]) / rho / (2 * l + 1))[:, None], L + 1, axis=1)
    T = np.repeat(((1 + k[:L + 1] - h[:L + 1]) / (1 + k[:L + 1]))[:, None], L + 1, axis=1)
    if polar and L >= 2:
        g = (1 + k2b - h2b) / (klf - k2b)
        H[2, 1] += 3.0 * g * (1 + k[2]) / rho / 5; T[2, 1] += g
    th, ph = (90 - lat) * PI / 180, lon * PI / 180
    P, _ = plm_colombo(L, np.cos(th))
    m = np.arange(L + 1)
    C, D = np.cos(np.outer(ph, m)), np.sin(np.outer(ph, m))
    mass = 4 * PI * a ** 3 * rho * c[0, 0] / 3
    o = gen_harmonics(ocean, lon, lat, LMAX=L)
    hc, hs = -mass / (a * a * 4 * PI * o.clm[0, 0]) * o.clm, -mass / (a * a * 4 * PI * o.clm[0, 0]) * o.slm
    out = []
    for i in range(most):
        cc, ss = np.tril(H * hc + a * T * c), np.tril(H * hs + a * T * s)
        z = (C @ np.einsum('lm,lmt->mt', cc, P) + D @ np.einsum('lm,lmt->mt', ss, P)) * ocean
        y = gen_harmonics(z, lon, lat, LMAX=L)
        u = (-mass / (a * a) / (4 * PI) - y.clm[0, 0]) / o.clm[0, 0]
        z = z + u * ocean
        nc, ns = y.clm + u * o.clm, y.slm + u * o.slm
        m0, m1 = np.sqrt(hc ** 2 + hs ** 2).sum(), np.sqrt(nc ** 2 + ns ** 2).sum()
        out.append(z); hc, hs = nc, ns
        if not abs((m1 - m0) / m0) > 1e-4: break
    return out

def world(ctx):
    L = ctx.choice('LMAX', [1, 2, 3, 6, 12])
    d = ctx.choice('spacing', [10.0, 15.0, 7.5])
    lon = np.arange(d / 2, 360, d) if ctx.choice('west', [False, True]) else np.arange(-180 + d / 2, 180, d)
    lat = np.arange(90 - d / 2, -90, -d) if ctx.choice('north', [True, False]) else np.arange(-90 + d / 2, 90, d)
    land = np.array(ctx.arr('land', (len(lon), len(lat)), draw=(0.0, 1.0)) > ctx.choice('share', [0.7, 0.5, 0.9]), dtype=float)
    c, s = np.tril(ctx.arr('clm', (L + 1, L + 1))), np.tril(ctx.arr('slm', (L + 1, L + 1)))
    s[:, 0] = 0
    love = tuple(ctx.arr(k, (L + 1,), draw=r) for k, r in (('hl', (-0.9, 0.1)), ('kl', (-0.3, 0.05)), ('ll', (-0.1, 0.2))))
    return L, lon, lat, land, c, s, love

def options(ctx):
    b = ctx.choice('body', [0, 1, (0.31, 0.62), [0.2, 0.5]]); f = ctx.choice('fluid', [0, 1, 2, 3, [0.9], (0.97,)]); p = ctx.choice('polar', [True, False])
    kw = {}
    if b != 0: kw['BODY_TIDE_LOVE'] = b
    if f != 0: kw['FLUID_LOVE'] = f
    if not p: kw['POLAR'] = False
    return b, f, p, kw

@contract('the sea level solves the equation pass by pass until it converges', S + 'sea_level_equation', symbolic=False, bounded='drawn loads to degree 12 on grids to 7.5 degrees', samples=40)
def equation(ctx):
    L, lon, lat, land, c, s, love = world(ctx)
    b, f, p, kw = options(ctx)
    n = ctx.choice('iterations', [1, 2, 3, 6, None, 12])
    if n is not None: kw['ITERATIONS'] = n
    fill = ctx.choice('fill', [0, -9999.0])
    if fill: kw['FILL_VALUE'] = fill
    if ctx.choice('plm', [False, True]): kw['PLM'] = plm_colombo(L, np.cos((90 - lat) * PI / 180))[0]
    if ctx.choice('double', [False, True]): kw.update(ASTYPE=np.float64, SCALE=1e-100)
    old = [ctx.snap(v) for v in (c, s, lon, lat, land, kw.get('PLM'), *love)]
    x = sea_level_equation(c, s, lon, lat, land, LMAX=L, LOVE=love, **kw)
    k2b, h2b = body(b)
    q = passes(c, s, lon, lat, land, L, love, k2b, h2b, fluid(f), p, 6 if n is None else n)[-1]
    w = float(np.max(np.abs(q))) + 1e-12
    ctx.shape(x, land.shape)
    ctx.eq(np.where(land == 1, 0, x) / w, q / w, 'sea level', tol=1e-7)
    ctx.check(bool(np.all(x[land == 1] == fill)), 'nothing over land')
    for v, o in zip((c, s, lon, lat, land, kw.get('PLM'), *love), old):
        if o is not None: ctx.eq(v, o, 'input unchanged', tol=0)

@contract('the water in the sea balances the load', S + 'sea_level_equation', symbolic=False, bounded='drawn loads to degree 12 on grids to 7.5 degrees', samples=40)
def mass(ctx):
    L, lon, lat, land, c, s, love = world(ctx)
    b, f, p, kw = options(ctx)
    x = sea_level_equation(c, s, lon, lat, land, LMAX=L, LOVE=love, ITERATIONS=ctx.choice('iterations', [1, 2, 6]), **kw)
    g = units(lmax=L)
    w = gen_harmonics(x, lon, lat, LMAX=L).clm[0, 0]
    t = abs(g.rad_e * np.max(np.abs(c)) * 10)
    ctx.eq(w / t, -g.rad_e * g.rho_e * c[0, 0] / 3 / t, 'mass', tol=1e-9)
    # linear in the load for a number of passes
    z = ctx.real('factor', draw=(0.5, 3.0))
    y = sea_level_equation(z * c, z * s, lon, lat, land, LMAX=L, LOVE=love, ITERATIONS=1, **kw); x = sea_level_equation(c, s, lon, lat, land, LMAX=L, LOVE=love, ITERATIONS=1, **kw)
    t = float(np.max(np.abs(x))) + 1e-12
    ctx.eq(y / t, z * x / t, 'linear', tol=1e-7)

# ---- ocean and land functions
def mask_file(ctx, values, lon, lat, name):
    f = pathlib.Path(ctx.tmpdir()) / 'mask.nc'
    with netCDF4.Dataset(f, 'w') as d:
        d.createDimension('lat', len(lat)); d.createDimension('lon', len(lon))
        for k, v in (('lat', lat), ('lon', lon)): d.createVariable(k, 'f8', (k,))[:] = v
        d.createVariable(name, 'i1', ('lat', 'lon'))[:] = values
    return f

@contract('ocean and land coefficients are those of the mask', [O + 'ocean_stokes', O + 'land_stokes'], symbolic=False, bounded='drawn masks on grids to 10 degrees', samples=30)
def functions(ctx):
    L = ctx.choice('LMAX', [2, 6, 12]); M2 = ctx.choice('MMAX', [None, None, 2])
    d = ctx.choice('spacing', [10.0, 15.0])
    lon, lat = np.arange(d / 2, 360, d), np.arange(90 - d / 2, -90, -d)
    v = np.floor(ctx.arr('values', (len(lat), len(lon)), draw=(0.0, 4.999))).astype(int)
    name = ctx.choice('name', ['LSMASK', 'mask']); simple = ctx.choice('simplify', [False, True])
    file = mask_file(ctx, v, lon, lat, name)
    kw = dict(LOVE=tuple(ctx.arr(k, (L + 1,), draw=r) for k, r in (('hl', (-0.9, 0.1)), ('kl', (-0.3, 0.05)), ('ll', (-0.1, 0.2)))))
    if M2 is not None: kw['MMAX'] = M2
    if name != 'LSMASK': kw['VARNAME'] = name
    land = ((v >= 1) & (v <= 3)).astype(float)
    if simple:
        kw['SIMPLIFY'] = True
        land = land - isolated(land)
    a, b = ocean_stokes(ctx.choice('string', [str, pathlib.Path])(file), L, **kw), land_stokes(file, L, **kw)
    kw = dict(UNITS=1, LMIN=0, LMAX=L, MMAX=L if M2 is None else M2, LOVE=kw['LOVE'])
    for x, f, n in ((a, 1 - land, 'ocean'), (b, land, 'land')):
        y = gen_stokes(f.T, lon, lat, **kw)
        ctx.check(x.lmax == L and x.mmax == (L if M2 is None else M2), 'degree and order')
        ctx.eq(x.clm, y.clm, n + ' cosines', tol=1e-12); ctx.eq(x.slm, y.slm, n + ' sines', tol=1e-12)
    ctx.raises((FileNotFoundError,), lambda: ocean_stokes(str(file) + 'x', L, LOVE=kw['LOVE']), 'missing files are refused')
    ctx.raises((FileNotFoundError,), lambda: land_stokes(str(file) + 'x', L, LOVE=kw['LOVE']), 'missing files are refused')

def isolated(mask):
    """land cells with at least three of their neighbours (at the ends of the latitudes: the inner neighbour twice) in the sea"""
    n, k = mask.shape; out = np.zeros((n, k))
    for i in range(n):
        for j in range(k):
            if mask[i, j] == 0: continue
            near = mask[i, (j + 1) % k] + mask[i, (j - 1) % k] + mask[i - 1 if i > 0 else 1, j] + mask[i + 1 if i < n - 1 else n - 2, j]
            out[i, j] = 1 if 4 - near >= 3 else 0
    return out

@contract('isolated points are land cells with at most one land neighbour', O + 'find_isolated_points')
def lone(ctx):
    n, k = ctx.int('n', 2, draw=(2, 8)), ctx.int('k', 2, draw=(2, 8))
    if ctx.symbolic: mask = ctx.arr('mask', (n, k), 'i', lo=0, hi=1)
    else: mask = np.array(ctx.arr('mask', (n, k), draw=(0.0, 1.0)) > ctx.choice('share', [0.3, 0.6]), dtype=float)
    old = ctx.snap(mask)
    x = find_isolated_points(mask)
    ctx.shape(x, (n, k))
    def one(i, j):
        near = mask[i, ctx.ite(j == k - 1, 0, j + 1)] + mask[i, ctx.ite(j == 0, k - 1, j - 1)] + mask[ctx.ite(i == 0, 1, i - 1), j] + mask[ctx.ite(i == n - 1, n - 2, i + 1), j]
        ctx.when((mask[i, j] == 1) & (near <= 1), lambda: ctx.eq(x[i, j], 1, 'isolated', tol=0))
        ctx.when((mask[i, j] == 0) | ((mask[i, j] == 1) & (near >= 2)), lambda: ctx.eq(x[i, j], 0, 'not isolated', tol=0))
    ctx.forall([(0, n), (0, k)], one)
    ctx.eq(mask, old, 'input unchanged', tol=0)

# ---- by the contract of gen_harmonics (C16): its coefficients are sums of the cells with weights that depend on the grid alone
def analysis(ctx, nphi, nth):
    """gen_harmonics by its contract; returns the function giving coefficient (l, m) of a field"""
    if not ctx.symbolic:
        memo = {}
        def part(k, data, l, m, lon, lat):
            w = id(data)
            if w not in memo: memo[w] = (data, gen_harmonics(np.array(data, dtype=float), lon, lat, LMAX=max(l, 3)))
            return getattr(memo[w][1], k)[l, m]
        return part
    from gravity_toolkit.harmonics import harmonics
    def total(k, data, l, m, lon=None, lat=None): return ctx.sum(0, nphi, lambda i: ctx.sum(0, nth, lambda j: ctx.uf(k, l, m, i, j) * data[i, j]))
    def gen(data, lon, lat, LMAX=60, MMAX=None, PLM=None, METHOD='integration'):
        y = harmonics(lmax=LMAX, mmax=LMAX)
        y.clm, y.slm = [ctx.table((LMAX + 1, LMAX + 1), lambda l, m: total(k, data, l, m)) for k in ('clm', 'slm')]
        return y
    ctx.callee('gravity_toolkit.gen_harmonics', 'gen_harmonics', gen)
    ctx.callee('gravity_toolkit.associated_legendre', 'plm_holmes', lambda L, x: (None, None))
    return total

def small_world(ctx, L):
    if ctx.symbolic:
        nphi, nth = ctx.int('nphi', 2), ctx.int('nth', 2)
        lon, lat = ctx.arr('lon', (nphi,), lo=0, hi=360), ctx.arr('lat', (nth,), lo=-90, hi=90)
        land = ctx.arr('land', (nphi, nth), 'i', lo=0, hi=1)
    else:
        d = ctx.choice('spacing', [20.0, 30.0, 15.0])
        lon, lat = np.arange(d / 2, 360, d), np.arange(90 - d / 2, -90, -d)
        nphi, nth = len(lon), len(lat)
        land = np.array(ctx.arr('land', (nphi, nth), draw=(0.0, 1.0)) > 0.7, dtype=float)
    c, s = ctx.arr('clm', (L + 1, L + 1)), ctx.arr('slm', (L + 1, L + 1))
    love = tuple(ctx.arr(k, (L + 1,), lo=ctx.lit('-0.9'), hi=1, draw=(-0.5, 0.3)) for k in ('hl', 'kl', 'll'))
    return nphi, nth, lon, lat, land, c, s, love

@contract('the water in the sea balances the load, for any grid and any sea', S + 'sea_level_equation', samples=10, timeout=60, budget=300, bounded='maximum degree up to 3 and one pass, every grid, sea, load and Love number')
def balance(ctx):
    L, n = ctx.choice('degree and passes', [(1, 1), (2, 1), (3, 1)] if ctx.symbolic else [(1, 1), (2, 2), (3, 6)])
    nphi, nth, lon, lat, land, c, s, love = small_world(ctx, L)
    W = analysis(ctx, nphi, nth)
    g = units(lmax=L); sea = 1 - land
    x = sea_level_equation(c, s, lon, lat, land, LMAX=L, LOVE=love, ITERATIONS=n, ASTYPE=np.float64, SCALE=1, POLAR=not (L, n) == (2, 1))
    ctx.when(W('clm', sea, 0, 0, lon, lat) != 0, lambda: ctx.eq(W('clm', x, 0, 0, lon, lat), -g.rad_e * g.rho_e * c[0, 0] / 3, 'mass', tol=1e-7, scale=1e9))
    ctx.forall([(0, nphi), (0, nth)], lambda i, j: ctx.when(land[i, j] == 1, lambda: ctx.eq(x[i, j], 0, 'nothing over land', tol=0)))

def surface(L, t, u):
    """normalised functions of degrees up to three"""
    r = np.sqrt
    P = {(0, 0): 1, (1, 0): r(3) * t, (1, 1): r(3) * u}
    if L > 1: P.update({(2, 0): r(5) / 2 * (3 * t * t - 1), (2, 1): r(15) * t * u, (2, 2): r(15) / 2 * u * u})
    return P

def circle(ctx, L, m, ph):
    """cosine and sine of m times the longitude (for every input: by the addition theorem from the two highest orders)"""
    if not ctx.symbolic or m in (0, L): return np.cos(m * ph), np.sin(m * ph)
    return 2 * np.cos(ph) * np.cos((m + 1) * ph) - np.cos((m + 2) * ph), 2 * np.cos(ph) * np.sin((m + 1) * ph) - np.sin((m + 2) * ph)

@contract('one pass is the sum of the coefficients of the load and the sea', S + 'sea_level_equation', samples=10, timeout=60, budget=300, bounded='maximum degree up to 2, every grid, sea, load and Love number')
def first(ctx):
    L = ctx.choice('LMAX', [1, 2])
    nphi, nth, lon, lat, land, c, s, love = small_world(ctx, L)
    W = analysis(ctx, nphi, nth)
    g = units(lmax=L); sea = 1 - land; a, rho = g.rad_e, g.rho_e
    h, k, _ = love
    b, f, p = *([None, None] if ctx.symbolic else [ctx.choice('body', [0, 1, None]), ctx.choice('fluid', [0, 3, None])]), ctx.choice('polar', [True, False])
    kw = dict(POLAR=p)
    k2b, h2b = body(b) if b is not None else (ctx.real('k2b', draw=(0.2, 0.4)), ctx.real('h2b', draw=(0.5, 0.7)))
    klf = fluid(f) if f is not None else ctx.real('klf', draw=(0.8, 1.0))
    ctx.assume(klf - k2b != 0)
    kw['BODY_TIDE_LOVE'] = b if b is not None else (k2b, h2b); kw['FLUID_LOVE'] = f if f is not None else [klf]
    x = sea_level_equation(c, s, lon, lat, land, LMAX=L, LOVE=love, ITERATIONS=1, ASTYPE=np.float64, SCALE=1, **kw)
    def solved():
        o00 = W('clm', sea, 0, 0, lon, lat)
        height = -a * rho * c[0, 0] / 3 / o00
        def level(i, j):
            th, ph = (90 - lat[j]) * PI / 180, lon[i] * PI / 180
            t, u = np.cos(th), np.sin(th)
            z = 0
            for (l, m), P in surface(L, t, u).items():
                H = 3 * (1 + k[l] - h[l]) / rho / (2 * l + 1); T = (1 + k[l] - h[l]) / (1 + k[l])
                if p and (l, m) == (2, 1):
                    q = (1 + k2b - h2b) / (klf - k2b)
                    H = H + 3 * q * (1 + k[l]) / rho / (2 * l + 1); T = T + q
                C, D = circle(ctx, L, m, ph)
                z = z + (H * height * W('clm', sea, l, m, lon, lat) + a * T * c[l, m]) * P * C
                if m: z = z + (H * height * W('slm', sea, l, m, lon, lat) + a * T * s[l, m]) * P * D
            return z
        # the difference of any two cells of the sea: the uniform height of the pass is that of the balance of mass
        def pair(i, j):
            ctx.when((land[i, j] == 0) & (land[0, 0] == 0), lambda: ctx.eq(x[i, j] - x[0, 0], level(i, j) - level(0, 0), 'sea level', tol=1e-7, scale=1e9))
        ctx.forall([(0, nphi), (0, nth)], pair)
    ctx.when(W('clm', sea, 0, 0, lon, lat) != 0, solved)
