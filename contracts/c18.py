import numpy as np
from dv.ctx import contract
from contracts.common import R
from gravity_toolkit.gauss_weights import gauss_weights
from gravity_toolkit.gen_averaging_kernel import gen_averaging_kernel
PI = np.pi

class Love:
    def __init__(self, hl, kl, ll): self.hl = hl; self.kl = kl; self.ll = ll
    def __iter__(self): return iter((self.hl, self.kl, self.ll))

def radius(ctx): return ctx.real('hw', lo=10, hi=15000, draw=(50.0, 2000.0) if ctx.symbolic or ctx.rng.random() < 0.6 else (2000.0, 15000.0))
def sharpness(ctx, hw): return np.log(2) / (1 - np.cos(hw / 6371))

def follows(ctx, w, b, L, cut):
    """the recurrence until the first degree below the cutoff, and the cutoff from there on"""
    off = False                                     # an earlier degree was below the cutoff
    for l in range(2, L + 1):
        nxt = (1 - 2 * l) / b * w[l - 1] + w[l - 2]
        on = ctx.lnot(off)
        ctx.when(off, lambda: ctx.eq(w[l], cut, 'cutoff beyond the first degree below it', tol=0))
        if ctx.symbolic:
            ctx.when(on & (nxt >= cut), lambda: ctx.eq(w[l], nxt, 'recurrence'))
            ctx.when(on & (nxt < cut), lambda: ctx.eq(w[l], cut, 'cutoff at the first degree below it'))
            off = off | (nxt < cut)
        elif not off:
            # rounding of the recurrence grows with the degree: compare with the same order of operations
            e = (1.0 - 2.0 * l) / b * w[l - 1] + w[l - 2]
            ctx.eq(w[l], e if e >= cut else cut, 'recurrence', tol=1e-12)
            off = e < cut
        else: pass

@contract('Gaussian weights follow the recurrence of the averaging function', 'gravity_toolkit.gauss_weights.gauss_weights', bounded='maximum degree up to 5 for every radius; up to 120 for drawn radii', samples=80)
def gauss(ctx):
    L = ctx.choice('LMAX', [1, 2, 3, 4, 5]) if ctx.symbolic else ctx.rng.choice([1, 2, 3, 10, 60, 120])
    hw = radius(ctx); cut = ctx.real('cutoff', lo=0, hi=ctx.lit('0.001'), draw=(1e-12, 1e-4))
    ctx.assume(cut > 0)
    w = gauss_weights(hw, L, CUTOFF=cut)
    ctx.shape(w, (L + 1,))
    b = sharpness(ctx, hw)
    ctx.eq(w[0] * 2 * PI, 1, 'degree zero')
    ctx.eq(w[1] * 2 * PI, (1 + np.exp(-2 * b)) / (1 - np.exp(-2 * b)) - 1 / b, 'degree one')
    follows(ctx, w, b, L, cut)

@contract('weights of a zero radius do not smooth', 'gravity_toolkit.gauss_weights.gauss_weights')
def none(ctx):
    L = ctx.int('LMAX', 0, draw=(0, 60)); hw = ctx.real('hw', lo=0, hi=ctx.lit('1e-11'), draw=(0.0, 1e-11))
    w = gauss_weights(hw, L)
    ctx.shape(w, (L + 1,))
    ctx.forall(R(L + 1), lambda l: ctx.eq(w[l] * 2 * PI, 1, 'equal weights'))

@contract('weights never grow and stay between the cutoff and degree zero', 'gravity_toolkit.gauss_weights.gauss_weights', symbolic=False, bounded='drawn radii from 50 km, maximum degrees up to 120', samples=80)
def decrease(ctx):
    L = ctx.rng.choice([1, 2, 3, 10, 60, 120]); hw = radius(ctx)
    w = gauss_weights(hw, L)
    for l in range(1, L + 1):
        ctx.check(w[l] <= w[l - 1] + 1e-8, 'no larger than the degree below, to rounding')
        ctx.check(w[l] >= 1e-10, 'no smaller than the cutoff')

@contract('smoothing multiplies every order of a degree by its weight', ['gravity_toolkit.harmonics.harmonics.convolve'])
def convolve(ctx):
    from contracts.common import mk_harmonics
    L = ctx.int('L', 0, draw=(0, 6)); nt = ctx.int('nt', 1, draw=(1, 3)) if ctx.choice('dims', ['2d', '3d']) == '3d' else None
    Y = mk_harmonics(ctx, 'a', L, L, nt)
    v = ctx.arr('w', (L + 1,))
    C, S = ctx.snap(Y.clm), ctx.snap(Y.slm)
    Z = Y.convolve(v)
    for a, b, k in ((Z.clm, C, 'clm'), (Z.slm, S, 'slm')):
        f = lambda l, m, *t, a=a, b=b, k=k: ctx.eq(a[(l, m) + t], v[l] * b[(l, m) + t], k + ' times the weight')
        ctx.forall(R(L + 1, L + 1, nt), f)

def kernel_inputs(ctx):
    L = ctx.choice('LMAX', [1, 2]) if ctx.symbolic else ctx.rng.choice([1, 2, 3, 8])
    M = ctx.int('MMAX', 0, 8) if not ctx.symbolic else ctx.choice('MMAX', [0, 1, 2])
    ctx.assume(M <= L)
    n = (L + 1, L + 1)
    g = ctx.arr('gclm', n), ctx.arr('gslm', n); e = ctx.arr('eclm', n, draw=(0.0, 1e-2)), ctx.arr('eslm', n, draw=(0.0, 1e-2))
    ctx.assume(g[0][0, 0] > ctx.lit('0.01'))
    return L, M, g, e

@contract('the averaging kernel damps the exact kernel by error over smoothed signal', 'gravity_toolkit.gen_averaging_kernel.gen_averaging_kernel', bounded='maximum degree up to 2 for every input; up to 8 for drawn inputs', timeout=40, budget=300)
def kernel(ctx):
    from gravity_toolkit.units import units
    L, M, (gc, gs), (ec, es) = kernel_inputs(ctx)
    hw = radius(ctx); sigma = ctx.real('sigma', lo=1, draw=(1.0, 30.0))
    k = ctx.choice('units', [0, 1])
    love = Love(ctx.arr('hl', (L + 1,)), ctx.arr('kl', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')), ctx.arr('ll', (L + 1,)))
    cut = ctx.lit('1e-15')
    old = [ctx.snap(x) for x in (gc, gs, ec, es)]
    Y = gen_averaging_kernel(gc, gs, ec, es, sigma, hw, LMAX=L, MMAX=M, UNITS=k, LOVE=love)
    u = units(lmax=L).harmonic(*love)
    rad = u.rad_e / 100000
    b = np.log(2) / (1 - np.cos(hw / rad))
    E = np.exp(-2 * b)
    w = [(1 - E) / b, (1 + E) / b - (1 - E) / (b * b)]
    off = False
    for l in range(2, L + 1):
        x = w[l - 2] - (2 * l - 1) / b * w[l - 1]
        off = (off | (x < cut)) if ctx.symbolic else (off or bool(x < cut))
        w.append(ctx.ite(off, cut, x))
    def inside(l, m): return m <= min(l, int(M) if not ctx.symbolic else M)
    total = 0
    for l in range(L + 1):
        for m in range(min(l, M) + 1): total = total + w[l] / 2 * (gc[l, m] ** 2 + gs[l, m] ** 2)
    area = gc[0, 0]
    # variance of the signal over the smoothed kernel
    s2 = sigma * sigma * area * area / total
    ctx.shape(Y.clm, (L + 1, M + 1)); ctx.shape(Y.slm, (L + 1, M + 1))
    for l in range(L + 1):
        f = (u.cmwe[l] if k == 0 else 1) ** 2 / (w[l] * s2)
        for m in range(M + 1):
            for a, g, e, q in ((Y.clm, gc, ec, 'clm'), (Y.slm, gs, es, 'slm')):
                if m <= l: ctx.eq(a[l, m] * area * (1 + 2 * f * e[l, m] ** 2), g[l, m], q + ' of the kernel', tol=1e-7)
                else: ctx.eq(a[l, m], 0, q + ' above the degree', tol=0)
    for x, y, q in zip((gc, gs, ec, es), old, ('gclm', 'gslm', 'eclm', 'eslm')): ctx.eq(x, y, q + ' unchanged', tol=0)
