import numpy as np
from dv.ctx import contract
from contracts.common import spoil, mk_harmonics, Snap
from gravity_toolkit.degree_amplitude import degree_amplitude
from gravity_toolkit.time import adjust_months, calendar_to_grace
HM = 'gravity_toolkit.harmonics.harmonics.'

def setup(ctx, two=True, nonzero=False, dims=('2d', '3d')):
    L = ctx.int('lmax', 0, draw=(0, 4)); M = ctx.int('mmax', 0, draw=(0, 4)); ctx.assume(M <= L)
    tdim = ctx.choice('dims', dims)
    nt = None if tdim == '2d' else ctx.int('nt', 1, draw=(1, 3))
    a = mk_harmonics(ctx, 'a', L, M, nt)
    b = mk_harmonics(ctx, 'b', L, M, nt, nonzero=nonzero) if two else None
    return L, M, nt, a, b

def setup2(ctx, nonzero=False):
    """operands of possibly different maximum degree and order; the second may be one epoch"""
    L = ctx.int('lmax', 0, draw=(0, 4)); M = ctx.int('mmax', 0, draw=(0, 4)); ctx.assume(M <= L)
    L2 = ctx.int('lmax2', 0, draw=(0, 4)); M2 = ctx.int('mmax2', 0, draw=(0, 4)); ctx.assume(M2 <= L2)
    d = ctx.choice('dims', ['2d', '3d', '3d2d'])
    nt = None if d == '2d' else ctx.int('nt', 1, draw=(1, 3))
    a = mk_harmonics(ctx, 'a', L, M, nt)
    b = mk_harmonics(ctx, 'b', L2, M2, nt if d == '3d' else None, nonzero=nonzero)
    return L, M, L2, M2, d, nt, a, b

def idx(L, M, nt):
    r = [(0, L + 1), (0, M + 1)]
    return r if nt is None else r + [(0, nt)]

def elementwise(ctx, name, op):
    L, M, L2, M2, d, nt, a, b = setup2(ctx)
    pa, pb = Snap(ctx, a), Snap(ctx, b)
    r = getattr(a, name)(b)
    ctx.check(r is a, 'the object itself is returned')
    ctx.shape(r.clm, pa.clm.shape); ctx.shape(r.slm, pa.clm.shape)
    for n in ('clm', 'slm'):
        R, A, B = getattr(r, n), getattr(pa, n), getattr(pb, n)
        def one(*i):
            l, m = i[0], i[1]
            j = i if d != '3d2d' else (l, m)
            ctx.when((l <= L2) & (m <= M2), lambda: ctx.check(op(ctx, R[i], A[i], B[j]), n + ': pointwise on the common block'))
            ctx.when((l > L2) | (m > M2), lambda: ctx.check(ctx.same(R[i], A[i]), n + ': unchanged elsewhere'))
        ctx.forall(idx(L, M, nt), one)
    pb.unchanged(ctx, b, 'argument')
    ctx.eq(a.time, pa.time, 'time unchanged'); ctx.eq(a.month, pa.month, 'month unchanged')

@contract('addition is pointwise on the common degrees and orders', HM + 'add')
def add(ctx):
    elementwise(ctx, 'add', lambda c, r, x, y: c.close(r, x + y))

@contract('subtraction is pointwise on the common degrees and orders', HM + 'subtract')
def subtract(ctx):
    elementwise(ctx, 'subtract', lambda c, r, x, y: c.close(r, x - y))

@contract('multiplication is pointwise on the common degrees and orders', HM + 'multiply')
def multiply(ctx):
    elementwise(ctx, 'multiply', lambda c, r, x, y: c.close(r, x * y))

@contract('division is pointwise on the triangle of degrees and orders', HM + 'divide')
def divide(ctx):
    L, M, L2, M2, d, nt, a, b = setup2(ctx, nonzero=True)
    pa, pb = Snap(ctx, a), Snap(ctx, b)
    r = a.divide(b)
    ctx.check(r is a, 'the object itself is returned')
    ctx.shape(r.clm, pa.clm.shape); ctx.shape(r.slm, pa.clm.shape)
    for n in ('clm', 'slm'):
        R, A, B = getattr(r, n), getattr(pa, n), getattr(pb, n)
        def one(*i):
            l, m = i[0], i[1]
            j = i if d != '3d2d' else (l, m)
            tri = (l <= L2) & (m <= M2) & (m <= l)
            if n == 'slm': tri = tri & (m > 0)
            ctx.when(tri, lambda: ctx.check(ctx.close(R[i], A[i] / B[j]), n + ': quotient on the triangle'))
            ctx.when(ctx.lnot(tri), lambda: ctx.check(ctx.same(R[i], A[i]), n + ': unchanged elsewhere'))
        ctx.forall(idx(L, M, nt), one)
    pb.unchanged(ctx, b, 'argument')
    ctx.eq(a.time, pa.time, 'time unchanged')

@contract('multiplying then dividing restores every coefficient of the triangle', [HM + 'divide', HM + 'multiply'])
def muldiv(ctx):
    L, M, nt, a, b = setup(ctx, nonzero=True)
    pa = Snap(ctx, a)
    a.multiply(b).divide(b)
    ctx.forall(idx(L, M, nt), lambda *i: ctx.check(ctx.implies(i[1] <= i[0], ctx.close(a.clm[i], pa.clm[i], 1e-7)), 'clm restored'))
    ctx.forall(idx(L, M, nt), lambda *i: ctx.check(ctx.implies((i[1] <= i[0]) & (i[1] > 0), ctx.close(a.slm[i], pa.slm[i], 1e-7)), 'slm restored'))

@contract('adding then subtracting restores the object', [HM + 'add', HM + 'subtract'])
def addsub(ctx):
    L, M, nt, a, b = setup(ctx)
    pa = Snap(ctx, a)
    a.add(b).subtract(b)
    ctx.eq(a.clm, pa.clm, 'clm restored'); ctx.eq(a.slm, pa.slm, 'slm restored')

@contract('scaling by a number multiplies every coefficient and makes a new object', HM + 'scale')
def scale(ctx):
    L, M, nt, a, _ = setup(ctx, two=False)
    v = ctx.real('factor')
    p = Snap(ctx, a)
    r = a.scale(v)
    ctx.check(r is not a, 'new object')
    ctx.shape(r.clm, p.clm.shape)
    ctx.eq(r.clm, v * p.clm, 'clm'); ctx.eq(r.slm, v * p.slm, 'slm')
    ctx.eq(r.time, p.time, 'time'); ctx.eq(r.month, p.month, 'month')
    ctx.check((r.lmax == L) & (r.mmax == M), 'lmax and mmax')
    p.unchanged(ctx, a, 'source')
    spoil(r)
    p.unchanged(ctx, a, 'source after the result is modified')

@contract('scaling by a series of factors scales every epoch by its factor', HM + 'scale')
def scale_series(ctx):
    L, M, nt, a, _ = setup(ctx, two=False)
    n = ctx.int('nvar', 1, draw=(1, 3)) if nt is None else nt
    v = ctx.arr('factor', (n,))
    p = Snap(ctx, a)
    r = a.scale(v)
    ctx.shape(r.clm, (L + 1, M + 1, n)); ctx.shape(r.slm, (L + 1, M + 1, n))
    for k in ('clm', 'slm'):
        R, A = getattr(r, k), getattr(p, k)
        ctx.forall([(0, L + 1), (0, M + 1), (0, n)], lambda l, m, t: ctx.eq(R[l, m, t], v[t] * (A[l, m] if nt is None else A[l, m, t]), k))
    spoil(r)
    p.unchanged(ctx, a, 'source')

@contract('power raises every coefficient and makes a new object', HM + 'power')
def power(ctx):
    L, M, nt, a, _ = setup(ctx, two=False)
    e = ctx.choice('exponent', [0, 1, 2, 3])
    p = Snap(ctx, a)
    r = a.power(e)
    ctx.check(r is not a, 'new object')
    ctx.shape(r.clm, p.clm.shape)
    ctx.forall(idx(L, M, nt), lambda *i: ctx.eq(r.clm[i], p.clm[i] ** e, 'clm'))
    ctx.forall(idx(L, M, nt), lambda *i: ctx.eq(r.slm[i], p.slm[i] ** e, 'slm'))
    ctx.eq(r.time, p.time, 'time'); ctx.eq(r.month, p.month, 'month')
    p.unchanged(ctx, a, 'source')
    spoil(r)
    p.unchanged(ctx, a, 'source after the result is modified')

@contract('drift is the rate multiplied by the time since the epoch', HM + 'drift')
def drift(ctx):
    L, M, nt, a, _ = setup(ctx, two=False, dims=['2d'])
    n = ctx.int('nt', 1, draw=(1, 4))
    t = ctx.arr('t', (n,), draw=(2002.0, 2020.0))
    ep = ctx.real('epoch', draw=(2000.0, 2010.0))
    p = Snap(ctx, a)
    ctx.havoc_callee('gravity_toolkit.time', 'adjust_months')
    r = a.drift(t, epoch=ep)
    ctx.shape(r.clm, (L + 1, M + 1, n)); ctx.shape(r.slm, (L + 1, M + 1, n))
    for k in ('clm', 'slm'):
        R, A = getattr(r, k), getattr(p, k)
        ctx.forall([(0, L + 1), (0, M + 1), (0, n)], lambda l, m, j: ctx.eq(R[l, m, j], A[l, m] * (t[j] - ep), k))
    ctx.eq(r.time, t, 'time')
    if not ctx.symbolic: ctx.check(np.array_equal(r.month, adjust_months(calendar_to_grace(np.array(t)))), 'months of the times')
    p.unchanged(ctx, a, 'source')

@contract('the default drift epoch is 2003.3', HM + 'drift')
def drift_epoch(ctx):
    L, M, nt, a, _ = setup(ctx, two=False, dims=['2d'])
    n = ctx.int('nt', 1, draw=(1, 4))
    t = ctx.arr('t', (n,), draw=(2002.0, 2020.0))
    p = Snap(ctx, a)
    ctx.havoc_callee('gravity_toolkit.time', 'adjust_months')
    r = a.drift(t)
    ctx.forall([(0, L + 1), (0, M + 1), (0, n)], lambda l, m, j: ctx.eq(r.clm[l, m, j], p.clm[l, m] * (t[j] - ctx.lit('2003.3')), 'clm'))
    ctx.forall([(0, L + 1), (0, M + 1), (0, n)], lambda l, m, j: ctx.eq(r.slm[l, m, j], p.slm[l, m] * (t[j] - ctx.lit('2003.3')), 'slm'))

@contract('convolution multiplies every coefficient by the factor of its degree', HM + 'convolve')
def convolve(ctx):
    L, M, nt, a, _ = setup(ctx, two=False)
    k = ctx.int('extra', 0, draw=(0, 2))
    v = ctx.arr('kernel', (L + 1 + k,))
    pv = ctx.snap(v)
    p = Snap(ctx, a)
    r = a.convolve(v)
    ctx.shape(r.clm, p.clm.shape)
    ctx.forall(idx(L, M, nt), lambda *i: ctx.eq(r.clm[i], p.clm[i] * pv[i[0]], 'clm'))
    ctx.forall(idx(L, M, nt), lambda *i: ctx.eq(r.slm[i], p.slm[i] * pv[i[0]], 'slm'))
    ctx.eq(v, pv, 'kernel unchanged')
    ctx.eq(a.time, p.time, 'time unchanged'); ctx.eq(a.month, p.month, 'month unchanged')

@contract('the temporal mean is the average of each coefficient', HM + 'mean')
def mean(ctx):
    L, M, nt, a, _ = setup(ctx, two=False, dims=['3d'])
    p = Snap(ctx, a)
    r = a.mean()
    ctx.shape(r.clm, (L + 1, M + 1)); ctx.shape(r.slm, (L + 1, M + 1))
    ctx.forall([(0, L + 1), (0, M + 1)], lambda l, m: ctx.check(ctx.implies(m <= l, ctx.close(r.clm[l, m] * nt, ctx.sum(0, nt, lambda t: p.clm[l, m, t]))), 'clm'))
    ctx.forall([(0, L + 1), (0, M + 1)], lambda l, m: ctx.check(ctx.implies(m <= l, ctx.close(r.slm[l, m] * nt, ctx.sum(0, nt, lambda t: p.slm[l, m, t]))), 'slm'))
    ctx.eq(r.time * nt, ctx.sum(0, nt, lambda t: p.time[t]), 'time')
    p.unchanged(ctx, a, 'source')

@contract('removing the mean subtracts it from every epoch', HM + 'mean')
def mean_apply(ctx):
    L, M, nt, a, _ = setup(ctx, two=False, dims=['3d'])
    p = Snap(ctx, a)
    r = a.mean(apply=True)
    for k in ('clm', 'slm'):
        R, A, P_ = getattr(r, k), getattr(a, k), getattr(p, k)
        ctx.forall([(0, L + 1), (0, M + 1), (0, nt)], lambda l, m, t: ctx.check(ctx.implies(m <= l, ctx.close(A[l, m, t], P_[l, m, t] - R[l, m])), k + ': anomaly'))
        ctx.forall([(0, L + 1), (0, M + 1)], lambda l, m: ctx.check(ctx.implies(m <= l, ctx.close(R[l, m] * nt, ctx.sum(0, nt, lambda t: P_[l, m, t]))), k + ': mean'))
    ctx.eq(a.time, p.time, 'time unchanged'); ctx.eq(a.month, p.month, 'month unchanged')

@contract('the mean over selected epochs averages those epochs only', HM + 'mean')
def mean_indices(ctx):
    L, M, nt, a, _ = setup(ctx, two=False, dims=['3d'])
    k = ctx.int('nsel', 1, draw=(1, 3))
    sel = ctx.arr('sel', (k,), kind='i', lo=0, hi=nt - 1)
    p = Snap(ctx, a)
    r = a.mean(indices=sel)
    ctx.forall([(0, L + 1), (0, M + 1)], lambda l, m: ctx.check(ctx.implies(m <= l, ctx.close(r.clm[l, m] * k, ctx.sum(0, k, lambda t: p.clm[l, m, sel[t]]))), 'clm'))
    ctx.forall([(0, L + 1), (0, M + 1)], lambda l, m: ctx.check(ctx.implies(m <= l, ctx.close(r.slm[l, m] * k, ctx.sum(0, k, lambda t: p.slm[l, m, sel[t]]))), 'slm'))
    p.unchanged(ctx, a, 'source')

@contract('the amplitude of a degree is the root of its summed squares', HM + 'amplitude')
def amplitude(ctx):
    L, M, nt, a, _ = setup(ctx, two=False)
    p = Snap(ctx, a)
    r = a.amplitude
    ctx.shape(r, (L + 1,) if nt is None else (L + 1, nt))
    rng = [(0, L + 1)] if nt is None else [(0, L + 1), (0, nt)]
    def one(*i):
        l = i[0]
        e = ctx.sum(0, M + 1, lambda m: p.clm[(l, m) + i[1:]] ** 2 + p.slm[(l, m) + i[1:]] ** 2)
        ctx.eq(r[i] * r[i], e, 'squared amplitude')
        ctx.check(r[i] >= 0, 'not negative')
    ctx.forall(rng, one)
    p.unchanged(ctx, a, 'source')

@contract('the amplitude of every degree is that of the orders asked for', 'gravity_toolkit.degree_amplitude.degree_amplitude')
def degree_amplitudes(ctx):
    L = ctx.int('lmax', 1, draw=(1, 7)); M = ctx.int('mmax', 0, draw=(0, 7)); ctx.assume(M <= L)
    # two epochs or more (a single one loses its dimension)
    nt = ctx.choice('times', [None, 'n'])
    if nt is not None: nt = ctx.int('nt', 2, draw=(2, 4))
    sh = (L + 1, M + 1) if nt is None else (L + 1, M + 1, nt)
    c, s = ctx.arr('clm', sh), ctx.arr('slm', sh); pc, ps = ctx.snap(c), ctx.snap(s)
    l1 = ctx.int('LMAX', 1, draw=(1, 7)); m1 = ctx.int('MMAX', 0, draw=(0, 7)); ctx.assume((l1 <= L) & (m1 <= M))
    kw = ctx.choice('options', [{}, {'LMAX': l1}, {'MMAX': m1}, {'LMAX': l1, 'MMAX': m1}])
    r = degree_amplitude(c, s, **kw)
    l1, m1 = kw.get('LMAX', L), kw.get('MMAX', M)
    ctx.shape(r, (l1 + 1,) if nt is None else (l1 + 1, nt))
    def one(l, *i):
        ctx.eq(r[(l,) + i] ** 2, ctx.sum(0, m1 + 1, lambda m: pc[(l, m) + i] ** 2 + ps[(l, m) + i] ** 2), 'squared amplitude'); ctx.check(r[(l,) + i] >= 0, 'not negative')
    ctx.forall([(0, l1 + 1)] if nt is None else [(0, l1 + 1), (0, nt)], one)
    ctx.eq(c, pc, 'cosines unchanged', tol=0); ctx.eq(s, ps, 'sines unchanged', tol=0)

@contract('the complex form is C - iS', HM + 'ilm')
def ilm(ctx):
    L, M, nt, a, _ = setup(ctx, two=False)
    p = Snap(ctx, a)
    r = a.ilm
    ctx.forall(idx(L, M, nt), lambda *i: ctx.eq(r[i].real, p.clm[i], 'real part'))
    ctx.forall(idx(L, M, nt), lambda *i: ctx.eq(r[i].imag, -p.slm[i], 'imaginary part'))

@contract('derived quantities follow the current coefficients', [HM + 'amplitude', HM + 'ilm', HM + 'convolve'])
def derived(ctx):
    L, M, nt, a, _ = setup(ctx, two=False)
    p = Snap(ctx, a)
    x = a.amplitude; y = a.ilm
    w = ctx.arr('kernel', (L + 1,))
    a.convolve(w)
    r = a.ilm
    ctx.forall(idx(L, M, nt), lambda *i: ctx.eq(r[i].real, p.clm[i] * w[i[0]], 'real part after a change in place'))
    s = a.amplitude
    rng = [(0, L + 1)] if nt is None else [(0, L + 1), (0, nt)]
    def one(*i):
        l = i[0]
        e = ctx.sum(0, M + 1, lambda m: (p.clm[(l, m) + i[1:]] * w[l]) ** 2 + (p.slm[(l, m) + i[1:]] * w[l]) ** 2)
        ctx.eq(s[i] * s[i], e, 'squared amplitude after a change in place')
    ctx.forall(rng, one)
