import numpy as np
from dv.ctx import contract
from contracts.common import R, mk_harmonics
from gravity_toolkit.destripe_harmonics import destripe_harmonics
M = 'gravity_toolkit.destripe_harmonics.destripe_harmonics'

# half width of the window of an order, 15 exp(-m/10) rounded or truncated and at least 2
ROUNDED = [15, 14, 12, 11, 10, 9, 8, 7, 7, 6, 6, 5, 5, 4, 4, 3, 3, 3, 2, 2]
TRUNCATED = [15, 13, 12, 11, 10, 9, 8, 7, 6, 6, 5, 4, 4, 4, 3, 3, 3, 2, 2, 2]
def half(m, rounded): return (ROUNDED[m] if rounded else TRUNCATED[m]) if m < 20 else 2

def quadratic(n, d, c, x):
    """value at x (from the centre) of the quadratic fitted to d[c-n .. c+n]"""
    s0 = 2 * n + 1; s2 = sum(j * j for j in range(-n, n + 1)); s4 = sum(j ** 4 for j in range(-n, n + 1))
    r0 = sum(d[c + j] for j in range(-n, n + 1)); r1 = sum(j * d[c + j] for j in range(-n, n + 1)); r2 = sum(j * j * d[c + j] for j in range(-n, n + 1))
    q = s0 * s4 - s2 * s2
    return (s4 * r0 - s2 * r2) / q + r1 / s2 * x + (s0 * r2 - s2 * r0) / q * x * x

def smoothed(d, n, narrow):
    """moving quadratic of the coefficients of an order with degrees of one parity"""
    k = len(d)
    if 0 > k - 1 - 2 * n: return [0 for v in d] if narrow else list(d)
    out = []
    for i in range(k):
        c = min(max(i, n), k - 1 - n)
        out.append(quadratic(n, d, c, i - c))
    return out

def filtered(a, L, m, rounded, narrow):
    """the coefficients of order m after filtering"""
    out = {}
    for first in (m, m + 1):
        ls = list(range(first, L + 1, 2)); d = [a[l, m] for l in ls]
        s = smoothed(d, half(m, rounded), narrow) if m >= 5 else [0] * len(d)
        for l, v, w in zip(ls, d, s): out[l] = v - w
    return out

def verify(ctx, w, a, L, M2, rounded, narrow, scale, label):
    for m in range(M2 + 1):
        f = filtered(a, L, m, rounded, narrow)
        for l in range(m, L + 1): ctx.eq(w[l, m], f[l], label, tol=1e-7, scale=scale)

@contract('orders of five and above lose the moving quadratic of each parity', M, timeout=20, budget=300)
def filter(ctx):
    L, M2 = ctx.choice('degree', [(8, 8), (30, 20)] if ctx.symbolic else [(8, 8), (20, 20), (30, 30), (41, 17), (60, 60), (60, 30), (25, 4)])
    e = 0 if ctx.symbolic else ctx.choice('beyond', [0, 0, 3])           # degrees and orders beyond the filtered ones
    a, b = ctx.arr('clm', (L + 1 + e, M2 + 1 + e)), ctx.arr('slm', (L + 1 + e, M2 + 1 + e))
    old = ctx.snap(a), ctx.snap(b)
    rounded, narrow = ctx.choice('rounded', [True, False]), ctx.choice('narrow', [False, True])
    x = destripe_harmonics(a, b, LMAX=L, MMAX=M2, ROUND=rounded, NARROW=narrow)
    for k, o in (('clm', old[0]), ('slm', old[1])):
        ctx.shape(x[k], (L + 1 + e, M2 + 1 + e))
        if e: ctx.check(np.array_equal(x[k][L + 1:], o[L + 1:]) and np.array_equal(x[k][:, M2 + 1:], o[:, M2 + 1:]), 'others unchanged')
        verify(ctx, x[k], o, L, M2, rounded, narrow, 3, k)
    ctx.eq(a, old[0], 'input unchanged', tol=0); ctx.eq(b, old[1], 'input unchanged', tol=0)

@contract('defaults are rounded windows, all orders and no narrow windows', M, symbolic=False, bounded='drawn coefficients to degree 60')
def defaults(ctx):
    a, b = ctx.arr('clm', (61, 61)), ctx.arr('slm', (61, 61))
    x = destripe_harmonics(a, b)
    verify(ctx, x['clm'], a, 60, 60, True, False, 3, 'clm'); verify(ctx, x['slm'], b, 60, 60, True, False, 3, 'slm')
    ctx.raises((ValueError,), lambda: destripe_harmonics(a[:1], b[:1]), 'a single degree is refused')

@contract('a quadratic of the degree is removed and the filter is linear', M, symbolic=False, bounded='drawn coefficients', samples=12)
def stripes(ctx):
    L = ctx.choice('degree', [30, 45, 60])
    a, b, z = ctx.arr('clm', (L + 1, L + 1)), ctx.arr('slm', (L + 1, L + 1)), ctx.real('factor')
    p = ctx.arr('poly', (3, L + 1, 2))
    l = np.arange(L + 1)[:, None]
    q = np.where((l % 2) == 0, p[0, :, 0] + p[1, :, 0] * l / L + p[2, :, 0] * (l / L) ** 2, p[0, :, 1] + p[1, :, 1] * l / L + p[2, :, 1] * (l / L) ** 2)
    q = np.tril(q)
    x, y, w = destripe_harmonics(a, b, LMAX=L), destripe_harmonics(b, a, LMAX=L), destripe_harmonics(z * a + b, a, LMAX=L)
    ctx.eq(w['clm'], z * x['clm'] + y['clm'], 'linear', tol=1e-6, scale=10)
    s = destripe_harmonics(a + q, b, LMAX=L)
    for m in range(L + 1):
        keep = q[:, m] if m < 5 else 0 * q[:, m]
        ctx.eq(np.tril(s['clm'])[:, m], np.tril(x['clm'])[:, m] + keep, 'stripes removed', tol=1e-6, scale=10)

@contract('destriping an object filters each of its epochs', ['gravity_toolkit.harmonics.harmonics.destripe', M], symbolic=False, bounded='drawn objects of up to 5 epochs', samples=25)
def objects(ctx):
    L = ctx.choice('lmax', [10, 30, 60]); M2 = ctx.choice('cut', [L, L // 2]); nt = ctx.choice('nt', [None, 1, 2, 5])
    rounded, narrow = ctx.choice('rounded', [True, False]), ctx.choice('narrow', [False, True])
    a = mk_harmonics(ctx, 'a', L, M2, nt); a.update_dimensions()
    old = [ctx.snap(v) for v in (a.clm, a.slm, a.time, a.month)]
    kw = {}
    if not rounded or ctx.choice('given', [False, True]): kw['ROUND'] = rounded
    if narrow: kw['NARROW'] = True
    b = a.destripe(**kw)
    ctx.check(b.lmax == L and b.mmax == M2, 'degree and order')
    ctx.eq(b.time, old[2], 'time', tol=0); ctx.eq(b.month, old[3], 'month', tol=0)
    for k, o in (('clm', old[0]), ('slm', old[1])):
        v = getattr(b, k); ctx.shape(v, o.shape)
        if nt is None: verify(ctx, v, o, L, M2, rounded, narrow, 3, k)
        else:
            for i in range(nt): verify(ctx, v[:, :, i], o[:, :, i], L, M2, rounded, narrow, 3, k)
    for v, o in zip((a.clm, a.slm, a.time, a.month), old): ctx.eq(v, o, 'input unchanged', tol=0)
