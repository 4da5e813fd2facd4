import numpy as np
from dv.ctx import contract
import gravity_toolkit.units
units = gravity_toolkit.units
U = 'gravity_toolkit.units.units.'
PI = np.pi

def setup(ctx, love=True):
    L = ctx.int('lmax', 0, draw=(0, 12))
    a = ctx.real('a_axis', draw=(6.0e8, 7.0e8)); f = ctx.real('flat', draw=(0.0, 0.2))
    ctx.assume((a > 0) & (f >= 0) & (f < 1))
    k = ctx.arr('kl', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')); h = ctx.arr('hl', (L + 1,)); l = ctx.arr('ll', (L + 1,))
    return L, a, f, h, k, l

def degree(i): return 2 * i + 1

@contract('the earth parameters are those of the ellipsoid', [U + 'rad_e', U + 'b_axis', U + 'rho_e', U + 'mass'])
def earth(ctx):
    a = ctx.real('a_axis', draw=(6.0e8, 7.0e8)); f = ctx.real('flat', draw=(0.0, 0.2))
    ctx.assume((a > 0) & (f >= 0) & (f < 1))
    u = units(lmax=2, a_axis=a, flat=f)
    ctx.eq(u.b_axis, a * (1 - f), 'semi-minor axis')
    ctx.eq(u.rad_e ** 3, a * a * u.b_axis, 'radius of the sphere of equal volume')
    ctx.eq(u.mass, u.GM / u.G, 'mass')
    ctx.eq(u.rho_e * 4 * PI * a * a * u.b_axis, 3 * u.mass, 'average density')

@contract('the constants have their values', [U + '__init__'], samples=1)
def constants(ctx):
    u = units(lmax=3)
    ctx.eq(u.a_axis, 637813700, 'semi-major axis in cm'); ctx.eq(u.flat, 1 / ctx.lit('298.257223563'), 'flattening')
    ctx.eq(u.g_wmo * 1000, 980665, 'standard gravity'); ctx.eq(u.G * 10**8, ctx.lit('6.6743'), 'gravitational constant')
    ctx.eq(u.GM, ctx.lit('3.986004418e20') - ctx.lit('3.5e14'), 'GM without the atmosphere'); ctx.eq(u.omega, ctx.lit('7.292115e-5'), 'rotation rate')
    ctx.forall([(0, 4)], lambda i: ctx.eq(u.l[i], i, 'degrees'))

def check_harmonic(ctx, u, L, h, k, l, elastic, ellipsoidal):
    a, rho, g = u.rad_e, u.rho_e, u.g_wmo
    def fr(i):
        r = 1 + (k[i] if elastic else 0)
        return r / (1 - u.flat) if ellipsoidal else r
    def one(i):
        w = rho * a * degree(i) / (3 * fr(i))
        ctx.eq(u.norm[i], 1, 'fully normalised')
        ctx.eq(u.cmwe[i], w, 'cm water equivalent'); ctx.eq(u.mmwe[i], 10 * w, 'mm water equivalent')
        ctx.eq(u.mmGH[i], 10 * a, 'mm geoid height')
        ctx.eq(u.mmCU[i], 10 * a * h[i] / fr(i), 'mm crustal uplift'); ctx.eq(u.mmCH[i], 10 * a * l[i] / fr(i), 'mm horizontal deformation')
        ctx.eq(u.cmVCU[i] * 2, a * degree(i), 'cm viscoelastic uplift'); ctx.eq(u.mVCU[i] * 200, a * degree(i), 'm viscoelastic uplift')
        ctx.eq(u.microGal[i] * a * a, 10**6 * u.GM * (i + 1), 'microGal')
        ctx.eq(u.Pa[i] * 10, g * w, 'Pa'); ctx.eq(u.mbar[i] * 1000, g * w, 'mbar')
    ctx.forall([(0, L + 1)], one)

@contract('harmonic unit factors equal their definitions', U + 'harmonic')
def harmonic(ctx):
    L, a, f, h, k, l = setup(ctx)
    u = units(lmax=L, a_axis=a, flat=f).harmonic(h, k, l)
    for n in ('norm', 'cmwe', 'mmwe', 'mmGH', 'mmCU', 'mmCH', 'cmVCU', 'mVCU', 'microGal', 'Pa', 'mbar'): ctx.shape(getattr(u, n), (L + 1,))
    check_harmonic(ctx, u, L, h, k, l, True, False)

@contract('harmonic unit factors with each deformation option', U + 'harmonic')
def options(ctx):
    L, a, f, h, k, l = setup(ctx)
    el = ctx.choice('elastic', [True, False]); ep = ctx.choice('ellipsoidal', [True, False])
    u = units(lmax=L, a_axis=a, flat=f).harmonic(h, k, l, include_elastic=el, include_ellipsoidal=ep)
    check_harmonic(ctx, u, L, h, k, l, el, ep)

@contract('love numbers given beyond the maximum degree are ignored and left alone', U + 'harmonic')
def longer(ctx):
    L = ctx.int('lmax', 0, draw=(0, 8)); n = ctx.int('extra', 0, draw=(0, 4))
    k = ctx.arr('kl', (L + 1 + n,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')); h = ctx.arr('hl', (L + 1 + n,)); l = ctx.arr('ll', (L + 1 + n,))
    pk, ph, pl = ctx.snap(k), ctx.snap(h), ctx.snap(l)
    u = units(lmax=L).harmonic(h, k, l)
    ctx.shape(u.cmwe, (L + 1,))
    check_harmonic(ctx, u, L, ph, pk, pl, True, False)
    ctx.eq(k, pk, 'kl unchanged', tol=0); ctx.eq(h, ph, 'hl unchanged', tol=0); ctx.eq(l, pl, 'll unchanged', tol=0)

@contract('spatial factors are the inverse of harmonic factors over the sphere', [U + 'spatial', U + 'harmonic'])
def reciprocal(ctx):
    L, a, f, h, k, l = setup(ctx)
    el = ctx.choice('elastic', [True, False])
    u = units(lmax=L, a_axis=a, flat=f).harmonic(h, k, l, include_elastic=el)
    v = units(lmax=L, a_axis=a, flat=f).spatial(h, k, l, include_elastic=el)
    for n in ('cmwe', 'mmwe', 'mmGH', 'microGal'):
        x, y = getattr(u, n), getattr(v, n)
        ctx.shape(y, (L + 1,))
        ctx.forall([(0, L + 1)], lambda i: ctx.eq(x[i] * y[i] * 4 * PI, 1, n))
    ctx.shape(v.norm, (L + 1,)); ctx.forall([(0, L + 1)], lambda i: ctx.eq(v.norm[i], 1, 'norm'))

@contract('unit codes and names select the factors', [U + 'bycode', U + 'get', U + '__getitem__', U + '__setitem__'], samples=5)
def names(ctx):
    L = ctx.int('lmax', 0, draw=(0, 6))
    z = ctx.arr('kl', (L + 1,), lo=0, hi=1)
    u = units(lmax=L).harmonic(z, z, z)
    for code, nm in enumerate(['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar', 'cmVCU']):
        ctx.check(units.bycode(code) == nm, 'name of the code %d' % code)
        ctx.check(u.get(nm) is getattr(u, nm), 'factor by name'); ctx.check(u[nm] is getattr(u, nm), 'factor by key')
    ctx.raises(ValueError, lambda: units.bycode(7), 'unknown code'); ctx.raises(ValueError, lambda: u.get('furlong'), 'unknown name')
    ctx.raises(ValueError, lambda: units.get_attributes('furlong'), 'unknown attributes')

@contract('unit descriptions name their units', U + 'get_attributes', samples=1)
def attributes(ctx):
    for k, v, w in (('norm', '1', 'normalized'), ('mmwe', 'mm', 'water'), ('cmwe', 'cm', 'water'), ('mmGH', 'mm', 'geoid'), ('mmCU', 'mm', 'elastic_crustal_uplift'),
            ('mmCH', 'mm', 'horizontal'), ('microGal', '\u03bcGal', 'gravitational'), ('mbar', 'mbar', 'pressure'), ('cmVCU', 'cm', 'viscoelastic_crustal_uplift'), ('mVCU', 'meters', 'viscoelastic_crustal_uplift')):
        a = units.get_attributes(k)
        ctx.check(len(a) == 2 and a[0] == v, 'unit of ' + k); ctx.check(w in a[1].lower(), 'description of ' + k)
