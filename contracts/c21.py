import numpy as np
import scipy.stats
import scipy.special
import scipy.signal
from dv.ctx import contract
from contracts.common import R
from gravity_toolkit.time_series.smooth import smooth
from gravity_toolkit.time_series.savitzky_golay import savitzky_golay
from gravity_toolkit.time_series.lomb_scargle import lomb_scargle
PI = np.pi
TS = 'gravity_toolkit.time_series.'

@contract('the moving average is the mean over the window with half weight at its ends', TS + 'smooth.smooth')
def moving(ctx):
    h = ctx.int('half', 1, draw=(1, 7)); n = ctx.int('n', 3, draw=(3, 30)); ctx.assume(n >= 2 * h + 1)
    t = ctx.arr('t', (n,), draw=(2002.0, 2020.0)); d = ctx.arr('d', (n,))
    old = ctx.snap(t), ctx.snap(d)
    x = smooth(t, d, HFWTH=h, MOVING=True)
    ctx.shape(x['data'], (n - 2 * h,)); ctx.shape(x['time'], (n - 2 * h,))
    def one(i):
        s = ctx.sum(i + 1, i + 2 * h, lambda k: old[1][k])
        ctx.eq(2 * h * x['data'][i], s + (old[1][i] + old[1][i + 2 * h]) / 2, 'mean over the window')
        ctx.eq(x['time'][i], old[0][i + h], 'epoch of the middle of the window', tol=0)
    ctx.forall(R(n - 2 * h), one)
    ctx.eq(t, old[0], 'times unchanged', tol=0); ctx.eq(d, old[1], 'data unchanged', tol=0)

@contract('the moving average keeps constants and is linear', TS + 'smooth.smooth')
def moving_constant(ctx):
    h = ctx.int('half', 1, draw=(1, 7)); n = ctx.int('n', 3, draw=(3, 30)); ctx.assume(n >= 2 * h + 1)
    t = ctx.arr('t', (n,), draw=(2002.0, 2020.0)); c = ctx.real('c'); a = ctx.real('a')
    d, e = ctx.arr('d', (n,)), ctx.arr('e', (n,))
    z = smooth(t, c + 0 * t, HFWTH=h, MOVING=True)
    x, y, s = (smooth(t, v, HFWTH=h, MOVING=True) for v in (d, e, a * d + e))
    def one(i):
        ctx.eq(z['data'][i], c, 'constant')
        ctx.eq(s['data'][i], a * x['data'][i] + y['data'][i], 'linear in the data', tol=1e-8)
    ctx.forall(R(n - 2 * h), one)

# ---- least squares in a moving window
def epochs(g, h):
    n = 2 * h + 1 + g.randint(0, 12)
    t = 2002.1 + np.arange(n) / 12 + np.array([g.uniform(-0.02, 0.02) for _ in range(n)])
    if g.random() < 0.5: t = t + (np.arange(n) > n // 2) * 0.25          # a gap
    return n, t

def terms(t):
    return np.array([np.ones_like(t), t, np.sin(2 * PI * t), np.cos(2 * PI * t), np.sin(4 * PI * t), np.cos(4 * PI * t)]).T

def drawn(g, n, s=10): return np.array([g.uniform(-s, s) for _ in range(n)])

def windows(t, d, h):
    """fit of each window"""
    A = terms(t)
    for i in range(len(t) - 2 * h):
        s = slice(i, i + 2 * h + 1)
        c = np.mean(t[s]); B = A[s].copy(); B[:, 1] -= c                   # better conditioned
        b = np.linalg.lstsq(B, d[s], rcond=None)[0]
        b[0] -= b[1] * c
        yield i, s, A[s], b

NAMES = {'data': [0, 1], 'seasonal': [2, 3, 4, 5], 'annual': [2, 3], 'semiann': [4, 5]}
KINDS = ['data', 'seasonal', 'annual', 'semiann', 'annamp', 'annphase', 'semiamp', 'semiphase']
def parts(A, b):
    f = {k: A[:, j] @ b[j] for k, j in NAMES.items()}
    one = np.ones(len(A))
    for k, j in (('ann', 2), ('semi', 4)):
        f[k + 'amp'] = one * np.hypot(b[j], b[j + 1]); f[k + 'phase'] = one * np.degrees(np.arctan2(b[j + 1], b[j]))
    return f

LOESS = dict(symbolic=False, bounded='drawn series of up to 27 epochs with half widths of 4 to 7', samples=80)

@contract('the loess filter evaluates the fit of each window at its middle', TS + 'smooth.smooth', **LOESS)
def loess(ctx):
    g = ctx.rng
    h = g.randint(4, 7); n, t = epochs(g, h); d = drawn(g, n) + 3 * (t - 2002) + 5 * np.sin(2 * PI * t)
    old = t.copy(), d.copy()
    x = smooth(t, d, HFWTH=h)
    m = n - 2 * h
    sc = np.abs(d).max() * 100
    for k in KINDS + ['trend', 'error', 'noise', 'reduce', 'time']: ctx.shape(x[k], (m,))
    for i, s, A, b in windows(t, d, h):
        f = parts(A, b)
        for k in KINDS: ctx.eq(x[k][i], f[k][h], k, tol=1e-6, scale=360 if 'phase' in k else sc)
        ctx.eq(x['trend'][i], b[1], 'trend', tol=1e-6, scale=sc)
    ctx.eq(x['data'] + x['seasonal'] + x['noise'], d[h:n - h], 'parts add up to the data', tol=1e-9, scale=sc)
    ctx.eq(x['reduce'], d[h:n - h], 'data at the retained epochs', tol=0); ctx.eq(x['time'], t[h:n - h], 'retained epochs', tol=0)
    ctx.eq(t, old[0], 'times unchanged', tol=0); ctx.eq(d, old[1], 'data unchanged', tol=0)

@contract('error of the trend of a window is propagated from the residuals or the data error', TS + 'smooth.smooth', **LOESS)
def loess_error(ctx):
    g = ctx.rng
    h = g.randint(4, 7); n, t = epochs(g, h); d = drawn(g, n)
    kind = g.choice(['default', 'STDEV', 'CONF', 'DATA_ERR']); v = g.uniform(0.2, 0.95)
    x = smooth(t, d, HFWTH=h, **({} if kind == 'default' else {kind: v}))
    for i, s, A, b in windows(t, d, h):
        nu = 2 * h + 1 - 6
        B = A.copy(); B[:, 1] -= B[:, 1].mean()                            # same variance of the trend
        H = np.linalg.inv(B.T @ B)
        if kind == 'DATA_ERR': e = v * np.sqrt(H[1, 1])
        else:
            al = {'default': 0.05, 'STDEV': 1 - scipy.special.erf(v / np.sqrt(2)), 'CONF': 1 - v}[kind]
            e = scipy.stats.t.ppf(1 - al / 2, nu) * np.sqrt(np.sum((d[s] - A @ b) ** 2) / nu * H[1, 1])
        ctx.eq(x['error'][i], e, 'error of the trend', tol=1e-3)

@contract('the weighted loess filter is the weighted mean over the windows holding an epoch', TS + 'smooth.smooth', **LOESS)
def weighted(ctx):
    g = ctx.rng
    h = g.randint(4, 7); n, t = epochs(g, h); d = drawn(g, n) + 3 * (t - 2002)
    W = g.choice([1, 2]); old = t.copy(), d.copy()
    x = smooth(t, d, HFWTH=h, WEIGHT=W)
    k = np.arange(-h, h + 1)
    wi = h + 1.0 - np.abs(k) if W == 1 else np.exp(-k ** 2 / 8.0) / np.sqrt(8 * PI)
    tot = np.zeros(n); f = {q: np.zeros(n) for q in KINDS}
    sc = np.abs(d).max() * 100
    for i, s, A, b in windows(t, d, h):
        p = parts(A, b); tot[s] += wi
        for q in KINDS: f[q][s] += wi * p[q]
    for q in KINDS: ctx.eq(x[q], f[q] / tot, q, tol=1e-6, scale=360 if 'phase' in q else sc)
    ctx.eq(x['weight'], tot, 'total weight', tol=1e-9)
    ctx.eq(x['data'] + x['seasonal'] + x['noise'], d, 'parts add up to the data', tol=1e-9, scale=sc)
    ctx.eq(x['annual'] + x['semiann'], x['seasonal'], 'annual and semi-annual parts', tol=1e-8, scale=sc)
    ctx.eq(x['time'], t, 'epochs', tol=0)
    ctx.eq(t, old[0], 'times unchanged', tol=0); ctx.eq(d, old[1], 'data unchanged', tol=0)

@contract('lines and cycles are separated exactly', TS + 'smooth.smooth', **LOESS)
def exact(ctx):
    g = ctx.rng
    h = g.randint(4, 7); n, t = epochs(g, h); b = drawn(g, 6); b[0] -= 2005 * b[1]
    A = terms(t); d = A @ b; f = parts(A, b)
    W = g.choice([0, 1, 2]); x = smooth(t, d, HFWTH=h, WEIGHT=W)
    s = slice(h, n - h) if W == 0 else slice(None)
    sc = np.abs(d).max() * 10
    for k in KINDS: ctx.eq(x[k], f[k][s], k, tol=1e-5, scale=360 if 'phase' in k else sc)
    ctx.eq(x['noise'], 0 * t[s], 'no residual', tol=1e-5, scale=sc)
    if W == 0: ctx.eq(x['trend'], b[1] + 0 * t[s], 'trend', tol=1e-5, scale=sc)

# ---- Savitzky-Golay
@contract('the Savitzky-Golay filter fits the data of each window', TS + 'savitzky_golay.savitzky_golay', symbolic=False, bounded='drawn series of up to 30 epochs, orders 0 to 4, derivatives 0 to 3')
def savitzky(ctx):
    g = ctx.rng
    order = g.randint(0, 4); deriv = g.randint(0, min(order, 3)); h = g.randint((order + 2) // 2, 6)
    rate = g.choice([1, 1, 12.0, 0.5]); e = g.choice([0, 0, 2.5])
    default = g.random() < 0.25
    if default: h = {0: 1, 1: 1, 2: 2, 3: 2, 4: 3}[order]
    n = 2 * h + 1 + g.randint(0, 14)
    t = 2002 + np.cumsum([g.uniform(0.5, 1.5) for _ in range(n)]) / 12; d = drawn(g, n); old = t.copy(), d.copy()
    kw = {} if default else {'WINDOW': 2 * h + 1}
    x = savitzky_golay(t, d, ORDER=order, DERIV=deriv, RATE=rate, DATA_ERR=e, **kw)
    m = n - 2 * h
    for k in ('data', 'error', 'time'): ctx.shape(x[k], (m,))
    ctx.eq(x['time'], t[h:n - h], 'retained epochs', tol=0)
    fac = np.prod(np.arange(1, deriv + 1)) * rate ** deriv
    for i in range(m):
        s = slice(i, i + 2 * h + 1); u = t[s] - t[i + h]; w = u / np.abs(u).max()
        P = np.linalg.pinv(np.vander(w, order + 1, increasing=True)) / (np.abs(u).max() ** np.arange(order + 1))[:, None]
        ctx.eq(x['data'][i], fac * (P[deriv] @ d[s]), 'coefficient of the fit', tol=1e-6, scale=fac * np.abs(P[deriv] * d[s]).sum())
        ctx.eq(x['error'][i], fac * abs(e) * np.sqrt(np.sum(P[deriv] ** 2)), 'propagated error', tol=1e-6)
    ctx.eq(t, old[0], 'times unchanged', tol=0); ctx.eq(d, old[1], 'data unchanged', tol=0)
    # polynomials of the order or less are kept, with their derivatives
    c = drawn(g, order + 1); p = np.polynomial.Polynomial(c, domain=[2002, 2004], window=[-1, 1])
    y = savitzky_golay(t, p(t), ORDER=order, DERIV=deriv, RATE=rate, **kw)
    sc = fac * np.abs(c).sum() * (4.0 / (t[-1] - t[0])) ** 0 * 1e3 ** min(deriv, 1)
    ctx.eq(y['data'], rate ** deriv * (p.deriv(deriv)(t) if deriv else p(t))[h:n - h], 'polynomial kept', tol=1e-6, scale=sc)

@contract('windows too small or even are refused', TS + 'savitzky_golay.savitzky_golay', symbolic=False, bounded='drawn windows')
def refused(ctx):
    g = ctx.rng
    order = g.randint(0, 4); w = g.choice([-3, -1, 0, 2, 4, 6, 8] + list(range(1, order + 2, 2)))
    t = np.arange(20.0)
    ctx.raises((ValueError,), lambda: savitzky_golay(t, t, WINDOW=w, ORDER=order), 'window refused')

# ---- Lomb-Scargle
@contract('the periodogram is that of the normalised data over the requested range', TS + 'lomb_scargle.lomb_scargle', symbolic=False, bounded='drawn series of up to 60 epochs')
def periodogram(ctx):
    g = ctx.rng
    n = g.randint(12, 60); t = 2002 + np.cumsum([g.uniform(0.5, 1.5) for _ in range(n)]) / 12; d = drawn(g, n) + 8 * np.sin(2 * PI * t)
    old = t.copy(), d.copy()
    p0 = g.uniform(0.4, 0.8); p1 = g.uniform(1.4, 3.0); N = g.choice([50, 101])
    kind = g.choice(['PERIOD', 'FREQUENCY', 'OMEGA']); rg = {'PERIOD': [p1, p0], 'FREQUENCY': [1 / p1, 1 / p0], 'OMEGA': [2 * PI / p1, 2 * PI / p0]}[kind]
    norm = g.random() < 0.3; p = [0.1, 0.01]
    x = lomb_scargle(t, d, **{kind: rg, 'N': N, 'NORMALIZE': norm, 'p': p})
    w = np.linspace(2 * PI / p1, 2 * PI / p0, N)
    ctx.eq(x['frequency'], w / (2 * PI), 'frequencies'); ctx.eq(x['period'], 2 * PI / w, 'periods')
    z = (d - np.mean(d)) / np.sqrt(np.mean((d - np.mean(d)) ** 2))
    P = np.zeros(N); s = t - t[0]
    for i in range(N):
        tau = np.arctan2(np.sum(np.sin(2 * w[i] * s)), np.sum(np.cos(2 * w[i] * s))) / (2 * w[i])
        c, q = np.cos(w[i] * (s - tau)), np.sin(w[i] * (s - tau))
        P[i] = ((z @ c) ** 2 / (c @ c) + (z @ q) ** 2 / (q @ q)) / 2
    if norm: P = P * 2 / (z @ z)
    ctx.eq(x['PowerDensity'], P, 'power', tol=1e-6)
    M = max(round(-6.362 + 1.193 * n + 0.00098 * n * n), 1)
    ctx.eq(x['Probability'], 1 - (1 - np.exp(-P)) ** M, 'probability', tol=1e-6)
    ctx.eq(x['contour'], -np.log(1 - (1 - np.array(p)) ** (1.0 / M)), 'levels of probability')
    ctx.eq(x['Nyquist'], (n - 1) / (2 * (t[-1] - t[0])), 'Nyquist frequency', tol=1e-9)
    ctx.eq(x['peak'], 2 * PI / w[int(np.argmax(P))], 'period of the peak')
    ctx.eq(x['centroid'], np.sum(2 * PI / w * P) / np.sum(P), 'centroid of the periods', tol=1e-6)
    ctx.eq(t, old[0], 'times unchanged', tol=0); ctx.eq(d, old[1], 'data unchanged', tol=0)
