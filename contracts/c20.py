import numpy as np
import scipy.stats
import scipy.special
from dv.ctx import contract
from contracts.common import R
from gravity_toolkit.time_series.regress import regress
from gravity_toolkit.time_series.piecewise import piecewise
from gravity_toolkit.time_series.amplitude import amplitude
PI = np.pi
TS = 'gravity_toolkit.time_series.'
EPS = 2.0 ** -52

# configurations of the fit: (order, cycles, number of additional terms)
SMALL = [(0, [], 0), (1, [], 0), (0, [1.0], 0), (0, [], 1), (1, [], 1)]
MANY = SMALL + [(2, [], 0), (1, [0.5, 1.0], 0), (1, [1.0], 2), (3, [0.5, 1.0], 1)]

def series(ctx, least):
    n = ctx.int('n', least, draw=(least + 2, least + 14))
    if ctx.symbolic: t = ctx.arr('t', (n,))
    else:
        t = ctx.arr('t', (n,), draw=(2002.0, 2012.0))
        t[:] = 2002 + 0.43 * np.arange(n) + (t % 1.0) * 0.4          # distinct epochs in order
    return n, t

def design(ctx, t, order, cycles, terms, rel):
    """functions of an epoch number"""
    f = [(lambda o: lambda i: (t[i] - rel) ** o if o else 1)(o) for o in range(order + 1)]
    for c in cycles:
        f.append((lambda c: lambda i: np.sin(2 * PI * t[i] / c))(c)); f.append((lambda c: lambda i: np.cos(2 * PI * t[i] / c))(c))
    for v in terms: f.append((lambda v: lambda i: v[i])(v))
    return f

def setup(ctx, first=0, last=None):
    order, cycles, k = ctx.choice('fit', SMALL[first:last] if ctx.symbolic else MANY)
    n, t = series(ctx, order + 1 + 2 * len(cycles) + k + 2)
    terms = [ctx.arr('term%d' % j, (n,)) for j in range(k)]
    r = ctx.choice('relative', ['mean', 'epoch', 'subset'])
    if r == 'mean': rel, arg = ctx.sum(0, n, lambda i: t[i]) / n, {}
    elif r == 'epoch': rel = ctx.real('epoch', draw=(2002.0, 2012.0)); arg = {'RELATIVE': float(rel) if not ctx.symbolic else rel}
    else: rel, arg = (t[0] + t[2]) / 2, {'RELATIVE': [0, 2]}
    f = design(ctx, t, order, cycles, terms, rel)
    return n, t, order, cycles, terms, f, dict(arg, ORDER=order, CYCLES=cycles, TERMS=terms)

def dot(ctx, n, *fs):
    def p(i):
        v = 1
        for f in fs: v = v * f(i)
        return v
    return ctx.sum(0, n, p)

def scales(ctx, n, *fs):
    if ctx.symbolic: return 1
    v = 1.0
    for f in fs: v *= max([abs(float(f(i))) for i in range(n)] + [1e-3])
    return v * int(n)

def check(ctx, x, n, f, d, w, simple, label=''):
    """normal equations, model, residual, counts and statistics of a fit"""
    b = x['beta']; k = len(f)
    ctx.shape(b, (k,)); ctx.shape(x['model'], (n,)); ctx.shape(x['residual'], (n,))
    mod = lambda i: sum(b[j] * f[j](i) for j in range(k))
    sm = 1 if ctx.symbolic else max([abs(float(mod(i))) for i in range(n)] + [abs(float(d(i))) for i in range(n)] + [sum(abs(float(b[j] * f[j](i))) for j in range(k)) for i in range(n)])
    ctx.forall(R(n), lambda i: ctx.eq(x['model'][i], mod(i), 'model is the sum of the terms', tol=1e-6, scale=sm))
    ctx.forall(R(n), lambda i: ctx.eq(x['model'][i] + x['residual'][i], d(i), 'model and residual are the data', tol=1e-6, scale=sm))
    for j in range(k):
        ctx.eq(dot(ctx, n, f[j], w, lambda i: d(i) - mod(i)), 0, 'residual orthogonal to term %d' % j, tol=1e-5, scale=scales(ctx, n, f[j], w) * sm)
    s = len(simple)
    if s: ctx.forall(R(n), lambda i: ctx.eq(x['simple'][i], sum(b[j] * f[j](i) for j in simple), 'part without cycles', tol=1e-6, scale=sm))
    ctx.check(x['N'] == k, 'number of terms'); ctx.check(x['DOF'] == n - k, 'degrees of freedom')

def statistics(ctx, x, n, k, d, w, weighted, aicc):
    """statistics of the residuals of a fit"""
    res = x['residual']
    sse = dot(ctx, n, lambda i: res[i], lambda i: res[i])
    mean = ctx.sum(0, n, d) / n
    sst = ctx.sum(0, n, lambda i: (d(i) - mean) * (d(i) - mean))
    nu = n - k
    ctx.assume(sst > ctx.lit('1e-6')); ctx.assume(sse > ctx.lit('1e-9'))
    ctx.eq(x['R2'] * sst, sst - sse, 'coefficient of determination', tol=1e-6)
    ctx.eq(x['R2Adj'] * sst * nu, sst * nu - sse * (n - 1), 'adjusted coefficient of determination', tol=1e-6)
    if not weighted: ctx.eq(x['MSE'] * nu, sse, 'mean square error', tol=1e-6)
    L = -n * (np.log(2 * PI) + 1 - np.log(n) + np.log(ctx.sum(0, n, lambda i: w(i) * (res[i] * res[i])))) / 2
    if weighted: L = L + ctx.sum(0, n, lambda i: np.log(w(i))) / 2
    K = k + 1
    ctx.eq(x['LOGLIK'], L, 'log likelihood', tol=1e-6)
    ctx.eq(x['BIC'], -2 * L + np.log(n) * K, 'Bayesian criterion', tol=1e-6)
    c = 0
    if aicc:
        ctx.assume(n > K + 1); c = 2 * K * (K + 1) / (n - K - 1)
    ctx.eq(x['AIC'], -2 * L + 2 * K + c, 'Akaike criterion', tol=1e-6)

def errors(ctx, x, n, f, w, sigma):
    """covariance is the inverse of the normal matrix and the errors are those propagated from the data"""
    H = x['cov_mat']; k = len(f)
    ctx.shape(H, (k, k))
    N = [[dot(ctx, n, f[a], w, f[b]) for b in range(k)] for a in range(k)]
    big = 1 if ctx.symbolic else float(np.abs(np.array(N, dtype=float)).max() * np.abs(H).max())
    for a in range(k):
        for b in range(k):
            ctx.eq(sum(H[a, c] * N[c][b] for c in range(k)), 1 if a == b else 0, 'covariance', tol=1e-6, scale=max(1, big) if not ctx.symbolic else 1)
    if sigma is None: return
    for a in range(k):
        v = ctx.sum(0, n, lambda i: (sum(H[a, c] * f[c](i) for c in range(k)) * w(i) * sigma(i)) ** 2)
        ctx.check(x['error'][a] >= 0, 'error of a term is not negative')
        ctx.eq(x['error'][a] * x['error'][a], v, 'error of a term', tol=1e-5)

@contract('the fit satisfies the normal equations of the requested terms', TS + 'regress.regress', timeout=40, budget=300)
def fit(ctx):
    n, t, order, cycles, terms, f, kw = setup(ctx)
    d = ctx.arr('d', (n,))
    old = ctx.snap(t), ctx.snap(d)
    x = regress(t, d, **kw)
    one = lambda i: 1
    check(ctx, x, n, f, lambda i: old[1][i], one, list(range(order + 1)))
    ctx.forall(R(n), lambda i: ctx.eq(x['season'][i], x['model'][i] - x['simple'][i], 'part of the cycles and terms', tol=1e-7))
    ctx.eq(t, old[0], 'times unchanged', tol=0); ctx.eq(d, old[1], 'data unchanged', tol=0)

@contract('statistics of the fit are those of its residuals', TS + 'regress.regress', timeout=40, budget=300)
def stats(ctx):
    n, t, order, cycles, terms, f, kw = setup(ctx)
    d = ctx.arr('d', (n,)); a = ctx.choice('AICc', [True, False])
    x = regress(t, d, AICc=a, **kw)
    statistics(ctx, x, n, len(f), lambda i: d[i], lambda i: 1, False, a)

@contract('errors are propagated from the residuals', TS + 'regress.regress', timeout=40, budget=300)
def residual_errors(ctx):
    n, t, order, cycles, terms, f, kw = setup(ctx)
    d = ctx.arr('d', (n,)); k = len(f); nu = n - k
    c = ctx.choice('confidence', ['default', 'STDEV', 'CONF'])
    v = ctx.real('level', lo=ctx.lit('0.1'), hi=ctx.lit('0.99'), draw=(0.1, 0.99))
    x = regress(t, d, **kw) if c == 'default' else regress(t, d, **dict(kw, **{c: v}))
    errors(ctx, x, n, f, lambda i: 1, None)
    al = {'default': lambda: ctx.lit('0.05'), 'STDEV': lambda: 1 - scipy.special.erf(v / np.sqrt(2)), 'CONF': lambda: 1 - v}[c]()
    q = scipy.stats.t.ppf(1 - al / 2, nu)
    for j in range(k):
        ctx.eq(x['std_err'][j], np.sqrt(x['MSE'] * x['cov_mat'][j, j]), 'standard error', tol=1e-6)
        ctx.eq(x['error'][j], q * x['std_err'][j], 'error of the confidence level', tol=1e-6)

@contract('errors are propagated from the data errors', TS + 'regress.regress', timeout=40, budget=300)
def data_errors(ctx):
    n, t, order, cycles, terms, f, kw = setup(ctx)
    d = ctx.arr('d', (n,)); e = ctx.real('sigma', lo=ctx.lit('0.01'), draw=(0.01, 3.0))
    x = regress(t, d, DATA_ERR=e, **kw)
    check(ctx, x, n, f, lambda i: d[i], lambda i: 1, list(range(order + 1)))
    errors(ctx, x, n, f, lambda i: 1, lambda i: e)

@contract('a weighted fit satisfies the weighted normal equations', TS + 'regress.regress', timeout=60, budget=400)
def weighted(ctx):
    n, t, order, cycles, terms, f, kw = setup(ctx, 0, 2)
    d = ctx.arr('d', (n,)); e = ctx.arr('sigma', (n,), lo=ctx.lit('0.01'), draw=(0.05, 3.0))
    old = ctx.snap(e)
    w = lambda i: 1 / (old[i] * old[i])
    x = regress(t, d, DATA_ERR=e, WEIGHT=True, **kw)
    check(ctx, x, n, f, lambda i: d[i], w, list(range(order + 1)))
    errors(ctx, x, n, f, w, lambda i: old[i])
    ctx.eq(e, old, 'errors unchanged', tol=0)

@contract('errors of zero are taken as machine epsilon', TS + 'regress.regress', symbolic=False, bounded='drawn series with one zero error')
def zero_error(ctx):
    n, t, order, cycles, terms, f, kw = setup(ctx)
    d = ctx.arr('d', (n,)); e = ctx.arr('sigma', (n,), draw=(0.5, 3.0)); k = ctx.rng.randint(0, n - 1)
    e[k] = 0
    old = ctx.snap(e)
    x = regress(t, d, DATA_ERR=e, WEIGHT=True, **dict(kw, ORDER=0, CYCLES=[], TERMS=[]))
    ctx.eq(x['model'][k], d[k], 'exact datum is fitted', tol=1e-6)
    ctx.eq(e, old, 'errors unchanged', tol=0)

@contract('a series made of the terms is fitted exactly', TS + 'regress.regress', timeout=40, budget=300)
def recover(ctx):
    n, t, order, cycles, terms, f, kw = setup(ctx, 1)
    b = ctx.arr('b', (len(f),))
    if ctx.symbolic:
        d = ctx.table((n,), lambda i: sum(b[j] * f[j](i) for j in range(len(f))))
        e = ctx.table((n,), lambda i: 1)
    else: d = np.array([sum(b[j] * f[j](i) for j in range(len(f))) for i in range(n)]); e = ctx.arr('sigma', (n,), draw=(0.5, 2.0))
    H = np.array([[float(g(i)) for g in f] for i in range(n)]) if not ctx.symbolic else None
    if H is not None: ctx.assume(np.linalg.cond(H) < 1e5)
    x = regress(t, d, **kw)
    for j in range(len(f)): ctx.eq(x['beta'][j], b[j], 'coefficient of term %d' % j, tol=1e-5)
    ctx.forall(R(n), lambda i: ctx.eq(x['residual'][i], 0, 'no residual', tol=1e-6))
    if not ctx.symbolic:
        x = regress(t, d, DATA_ERR=e, WEIGHT=True, **kw)
        for j in range(len(f)): ctx.eq(x['beta'][j], b[j], 'weighted coefficient of term %d' % j, tol=1e-4)

# ---- piecewise

def pieces(ctx):
    cycles, k = ctx.choice('fit', [([], 0)] if ctx.symbolic else [([], 0), ([1.0], 0), ([0.5, 1.0], 1)])
    n, t = series(ctx, 3 + 2 * len(cycles) + k + 3)
    if not ctx.symbolic: t -= 2005
    terms = [ctx.arr('term%d' % j, (n,)) for j in range(k)]
    how = ctx.choice('break', ['index'] if ctx.symbolic else ['index', 'time'])
    if how == 'index':
        m = ctx.int('index', 1, draw=(1, 5)); ctx.assume(m < n - 1); tb = t[m]; arg = {'BREAKPOINT': m}
    else:
        tb = float(t[0]) + (float(t[-1]) - float(t[0])) * (0.3 + 0.4 * ctx.rng.random())
        arg = {'BREAK_TIME': tb}
    hinge = (lambda i: ctx.ite(i >= m, t[i] - tb, 0)) if how == 'index' else (lambda i: ctx.ite(t[i] >= tb, t[i] - tb, 0))
    f = design(ctx, t, 1, cycles, terms, 0)
    f.insert(2, hinge)
    return n, t, f, dict(arg, CYCLES=cycles, TERMS=terms)

def second(ctx, x, k):
    """the coefficients of the fitted terms: the second slope is given as the sum of the first and the change"""
    b = x['beta']
    return lambda j: b[2] - b[1] if j == 2 else b[j]

def check_piecewise(ctx, x, n, f, d, w):
    b = second(ctx, x, len(f))
    class B:
        def __getitem__(self, j): return b(j)
    k = len(f)
    ctx.shape(x['beta'], (k,))
    mod = lambda i: sum(b(j) * f[j](i) for j in range(k))
    sm = 1 if ctx.symbolic else max([abs(float(d(i))) for i in range(n)] + [sum(abs(float(b(j) * f[j](i))) for j in range(k)) for i in range(n)])
    ctx.forall(R(n), lambda i: ctx.eq(x['model'][i], mod(i), 'model is the sum of the terms', tol=1e-6, scale=sm))
    ctx.forall(R(n), lambda i: ctx.eq(x['model'][i] + x['residual'][i], d(i), 'model and residual are the data', tol=1e-6, scale=sm))
    for j in range(k): ctx.eq(dot(ctx, n, f[j], w, lambda i: d(i) - mod(i)), 0, 'residual orthogonal to term %d' % j, tol=1e-5, scale=scales(ctx, n, f[j], w) * sm)
    if 'simple' in x: ctx.forall(R(n), lambda i: ctx.eq(x['simple'][i], sum(b(j) * f[j](i) for j in range(3)), 'lines without cycles', tol=1e-6, scale=sm))
    ctx.check(x['N'] == k, 'number of terms'); ctx.check(x['DOF'] == n - k, 'degrees of freedom')

def combined(ctx, e, j, label, get):
    """errors: that of the second slope is combined from those of the first and of the change"""
    if j == 2: return np.sqrt(get(1) + get(2))
    return np.sqrt(get(j))

@contract('a piecewise fit satisfies the normal equations of lines that join at the break', TS + 'piecewise.piecewise', symbolic=False, bounded='drawn series of up to 20 epochs')
def broken(ctx):
    n, t, f, kw = pieces(ctx)
    d = ctx.arr('d', (n,)); k = len(f)
    old = ctx.snap(t), ctx.snap(d)
    v = ctx.real('level', lo=ctx.lit('0.1'), hi=ctx.lit('0.99'), draw=(0.1, 0.99))
    x = piecewise(t, d, CONF=v, **kw)
    one = lambda i: 1
    ctx.check('simple' in x, 'the lines are given')
    check_piecewise(ctx, x, n, f, lambda i: old[1][i], one)
    errors(ctx, x, n, f, one, None)
    q = scipy.stats.t.ppf(1 - (1 - v) / 2, n - k)
    H = x['cov_mat']
    for j in range(k):
        e2 = x['MSE'] * (H[j, j] + (H[1, 1] if j == 2 else 0))
        ctx.eq(x['std_err'][j] ** 2, e2, 'standard error', tol=1e-6)
        ctx.eq(x['error'][j] ** 2, q * q * e2, 'error of the confidence level', tol=1e-6)
    ctx.eq(t, old[0], 'times unchanged', tol=0); ctx.eq(d, old[1], 'data unchanged', tol=0)

@contract('errors of a piecewise fit are propagated from the data errors', TS + 'piecewise.piecewise', symbolic=False, bounded='drawn series of up to 20 epochs')
def broken_errors(ctx):
    n, t, f, kw = pieces(ctx)
    d = ctx.arr('d', (n,)); k = len(f)
    if ctx.choice('weight', [False, True]):
        e = ctx.arr('sigma', (n,), lo=ctx.lit('0.01'), draw=(0.05, 3.0)); old = ctx.snap(e); w = lambda i: 1 / (old[i] * old[i]); s = lambda i: old[i]
        x = piecewise(t, d, DATA_ERR=e, WEIGHT=True, **kw)
        ctx.eq(e, old, 'errors unchanged', tol=0)
    else:
        e = ctx.real('sigma', lo=ctx.lit('0.01'), draw=(0.05, 3.0)); w = lambda i: 1; s = lambda i: e
        x = piecewise(t, d, DATA_ERR=e, **kw)
    check_piecewise(ctx, x, n, f, lambda i: d[i], w)
    errors(ctx, x, n, f, w, None)
    H = x['cov_mat']
    def var(j): return ctx.sum(0, n, lambda i: (sum(H[j, c] * f[c](i) for c in range(k)) * w(i) * s(i)) ** 2)
    for j in range(k):
        ctx.eq(x['error'][j] ** 2, var(j) + (var(1) if j == 2 else 0), 'error of a term', tol=1e-5)

@contract('statistics of a piecewise fit are those of its residuals', TS + 'piecewise.piecewise', timeout=60, budget=300)
def broken_stats(ctx):
    n, t, f, kw = pieces(ctx)
    d = ctx.arr('d', (n,)); a = ctx.choice('AICc', [True, False])
    x = piecewise(t, d, AICc=a, **kw)
    statistics(ctx, x, n, len(f), lambda i: d[i], lambda i: 1, False, a)

@contract('aliasing terms are the sine and cosine before and after the end of GRACE', TS + 'fit.aliasing_terms')
def aliasing(ctx):
    from gravity_toolkit.time_series.fit import aliasing_terms
    n = ctx.int('n', 1, draw=(1, 8)); t = ctx.arr('t', (n,), draw=(2015.0, 2021.0), sprinkle=(2018.0,)); p = ctx.real('period', lo=1, draw=(20.0, 400.0))
    x = aliasing_terms(t, period=p)
    ctx.check(len(x) == 4, 'four terms')
    def one(i):
        # cycles per year of a period in days
        a = 2 * PI * t[i] * ctx.lit('365.25') / p
        for j, v in enumerate((np.sin(a), np.cos(a))):
            ctx.eq(x[j][i], ctx.ite(t[i] < 2018, v, 0), 'before 2018', tol=1e-7); ctx.eq(x[j + 2][i], ctx.ite(t[i] < 2018, 0, v), 'from 2018', tol=1e-7)
    ctx.forall(R(n), one)

@contract('amplitude and phase describe the sine and cosine terms', TS + 'amplitude.amplitude')
def amp(ctx):
    n = ctx.int('n', 1, draw=(1, 5)); a = ctx.arr('bsin', (n,)); b = ctx.arr('bcos', (n,))
    A, ph = amplitude(a, b)
    def one(i):
        ctx.check(A[i] >= 0, 'amplitude is not negative')
        ctx.eq(A[i] * A[i], a[i] * a[i] + b[i] * b[i], 'amplitude')
        ctx.eq(ph[i] * PI, 180 * np.arctan2(b[i], a[i]), 'phase in degrees')
        if not ctx.symbolic:
            # A sin(w t + phase) = bsin sin(w t) + bcos cos(w t)
            for w in (0.0, 0.7, 2.0): ctx.eq(A[i] * np.sin(w + np.radians(ph[i])), a[i] * np.sin(w) + b[i] * np.cos(w), 'sinusoid', tol=1e-9)
    ctx.forall(R(n), one)
