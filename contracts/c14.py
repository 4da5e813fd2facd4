import numpy as np
from dv.ctx import contract
from gravity_toolkit.associated_legendre import associated_legendre, plm_colombo, plm_holmes, plm_mohlenkamp
from gravity_toolkit.legendre import legendre
from gravity_toolkit.legendre_polynomials import legendre_polynomials
A = 'gravity_toolkit.associated_legendre.'
EPS = 2.220446049250313e-16

def xs(ctx, n, poles=True):
    if poles:
        x = ctx.arr('x', (n,), lo=-1, hi=1, draw=(-1.0, 1.0), sprinkle=(-1.0, 1.0, 0.0, 0.9999, -0.9998, 0.997))
    else:
        x = ctx.arr('x', (n,), lo=ctx.lit('-0.999999'), hi=ctx.lit('0.999999'), draw=(-0.999, 0.999), sprinkle=(0.0,))
    return x

def sines(ctx, x):
    """sine of the colatitude, with the substitute at the poles"""
    def u(j):
        s = np.sqrt(1 - x[j] * x[j])
        return ctx.ite(s == 0, EPS, s)
    return u

def zonal(ctx, P, x, L, n):
    """values of order zero"""
    ctx.forall([(0, n)], lambda j: ctx.eq(P[0, 0, j], 1, 'degree zero'))
    ctx.forall([(0, n)], lambda j: ctx.eq(P[1, 0, j], np.sqrt(3) * x[j], 'degree one'))

def recurrence(ctx, P, x, L, M, n, u):
    zonal(ctx, P, x, L, n)
    ctx.forall([(0, n)], lambda j: ctx.eq(P[1, 1, j], np.sqrt(3) * u(j), 'degree one order one'))
    def sect(l, j):
        ctx.eq(P[l, l, j] * np.sqrt(2 * l), u(j) * np.sqrt(2 * l + 1) * P[l - 1, l - 1, j], 'sectoral')
    ctx.forall([(2, L + 1), (0, n)], sect)
    def tess(l, m, j):
        def below():
            a = np.sqrt((2 * l - 1) * (2 * l + 1)) * x[j] * P[l - 1, m, j]
            b = np.sqrt((2 * l + 1) * (l + m - 1) * (l - m - 1) / (2 * l - 3)) * P[l - 2, m, j]
            ctx.eq(P[l, m, j] * np.sqrt((l - m) * (l + m)), a - b, 'tesseral recurrence')
        ctx.when(m < l, below)
        ctx.when(m > l, lambda: ctx.eq(P[l, m, j], 0, 'zero above the degree', tol=0))
    ctx.forall([(2, L + 1), (0, L + 1), (0, n)], tess)
    def low(m, j):
        ctx.eq(P[0, m, j], 0, 'degree zero above the degree', tol=0)
        ctx.when(m > 1, lambda: ctx.eq(P[1, m, j], 0, 'degree one above the degree', tol=0))
    ctx.forall([(1, L + 1), (0, n)], low)

def derivative(ctx, P, dP, x, L, n, u):
    def one(l, m, j):
        def below():
            f = np.sqrt((l * l - m * m) * (2 * l + 1) / (2 * l - 1))
            ctx.eq(dP[l, m, j] * u(j), l * x[j] * P[l, m, j] - f * P[l - 1, m, j], 'derivative')
        ctx.when(m <= l, below)
        ctx.when(m > l, lambda: ctx.eq(dP[l, m, j], 0, 'zero above the degree', tol=0))
    ctx.forall([(1, L + 1), (0, L + 1), (0, n)], one)
    ctx.forall([(0, L + 1), (0, n)], lambda m, j: ctx.eq(dP[0, m, j], 0, 'derivative of degree zero', tol=0))

@contract('colombo functions follow the normalised recurrences', A + 'plm_colombo', timeout=90, budget=250)
def colombo(ctx):
    L = ctx.int('LMAX', 1, draw=(1, 12)); n = ctx.int('n', 1, draw=(1, 4))
    x = xs(ctx, n)
    P, dP = plm_colombo(L, x)
    ctx.shape(P, (L + 1, L + 1, n)); ctx.shape(dP, (L + 1, L + 1, n))
    recurrence(ctx, P, x, L, L, n, sines(ctx, x))

@contract('colombo derivatives are those of the functions', A + 'plm_colombo', timeout=60, budget=200)
def colombo_d(ctx):
    L = ctx.int('LMAX', 1, draw=(1, 12)); n = ctx.int('n', 1, draw=(1, 4))
    x = xs(ctx, n)
    P, dP = plm_colombo(L, x)
    derivative(ctx, P, dP, x, L, n, sines(ctx, x))

@contract('a truncated order gives the same values', A + 'plm_colombo')
def colombo_m(ctx):
    L = ctx.int('LMAX', 1, draw=(1, 10)); n = ctx.int('n', 1, draw=(1, 3)); M = ctx.int('MMAX', 0, draw=(0, 10)); ctx.assume(M <= L)
    x = xs(ctx, n)
    P, dP = plm_colombo(L, x); Q, dQ = plm_colombo(L, x, MMAX=M)
    ctx.shape(Q, (L + 1, M + 1, n)); ctx.shape(dQ, (L + 1, M + 1, n))
    ctx.forall([(0, L + 1), (0, M + 1), (0, n)], lambda l, m, j: ctx.eq(Q[l, m, j], P[l, m, j], 'functions', tol=0))
    ctx.forall([(0, L + 1), (0, M + 1), (0, n)], lambda l, m, j: ctx.eq(dQ[l, m, j], dP[l, m, j], 'derivatives', tol=0))

def agree(ctx, f, L, M, n, tol=1e-9):
    x = xs(ctx, n)
    P, dP = plm_colombo(L, x)
    Q, dQ = f(L, x) if M is None else f(L, x, MMAX=M)
    M = L if M is None else M
    ctx.shape(Q, (L + 1, M + 1, n)); ctx.shape(dQ, (L + 1, M + 1, n))
    ctx.forall([(0, L + 1), (0, M + 1), (0, n)], lambda l, m, j: ctx.eq(Q[l, m, j], P[l, m, j], 'functions', tol=tol))
    u = sines(ctx, x)
    ctx.forall([(0, L + 1), (0, M + 1), (0, n)], lambda l, m, j: ctx.eq(dQ[l, m, j] * u(j), dP[l, m, j] * u(j), 'derivatives', tol=tol))

@contract('holmes functions are the colombo functions, small degrees', A + 'plm_holmes', bounded='maximum degree up to 4, every argument', samples=4)
def holmes_small(ctx):
    agree(ctx, plm_holmes, ctx.choice('LMAX', [1, 2, 3, 4]), None, 1)

@contract('mohlenkamp functions are the colombo functions, small degrees', A + 'plm_mohlenkamp', bounded='maximum degree up to 4, every argument', samples=4)
def mohlenkamp_small(ctx):
    agree(ctx, plm_mohlenkamp, ctx.choice('LMAX', [1, 2, 3, 4]), None, 1)

@contract('every algorithm gives the same functions', [A + 'plm_holmes', A + 'plm_mohlenkamp', A + 'associated_legendre'], symbolic=False, bounded='maximum degree up to 60', samples=60)
def algorithms(ctx):
    L = int(ctx.rng.randint(1, 60)); n = int(ctx.rng.randint(1, 4)); M = None if ctx.rng.random() < 0.4 else int(ctx.rng.randint(0, L))
    k = ctx.choice('method', ['holmes', 'mohlenkamp', 'colombo', 'HOLMES', 'Mohlenkamp', 'Colombo'])
    agree(ctx, lambda l, x, **kw: associated_legendre(l, x, method=k, **kw), L, M, n, tol=1e-7)

LP = 'gravity_toolkit.legendre_polynomials.legendre_polynomials'
@contract('legendre polynomials follow the recurrence of order zero', LP)
def polynomials(ctx):
    L = ctx.int('lmax', 1, draw=(1, 12)); n = ctx.int('n', 1, draw=(1, 4))
    x = xs(ctx, n)
    P, dP = legendre_polynomials(L, x)
    ctx.shape(P, (L + 1, n)); ctx.shape(dP, (L + 1, n))
    ctx.forall([(0, n)], lambda j: ctx.eq(P[0, j], 1, 'degree zero'))
    ctx.forall([(0, n)], lambda j: ctx.eq(P[1, j], np.sqrt(3) * x[j], 'degree one'))
    def rec(l, j):
        a = np.sqrt((2 * l - 1) * (2 * l + 1)) * x[j] * P[l - 1, j]
        b = np.sqrt((2 * l + 1) * (l - 1) * (l - 1) / (2 * l - 3)) * P[l - 2, j]
        ctx.eq(P[l, j] * l, a - b, 'recurrence')
    ctx.forall([(2, L + 1), (0, n)], rec)
    u = sines(ctx, x)
    def der(l, j):
        f = np.sqrt(l * l * (2 * l + 1) / (2 * l - 1))
        ctx.eq(dP[l, j] * u(j), l * x[j] * P[l, j] - f * P[l - 1, j], 'derivative')
    ctx.forall([(1, L + 1), (0, n)], der)
    ctx.forall([(0, n)], lambda j: ctx.eq(dP[0, j], 0, 'derivative of degree zero', tol=0))

@contract('legendre polynomials are the functions of order zero', [LP, A + 'plm_colombo'], symbolic=False, bounded='maximum degree up to 60', samples=40)
def order_zero(ctx):
    L = ctx.rng.randint(1, 60); n = ctx.rng.randint(1, 4)
    x = xs(ctx, n)
    P, dP = legendre_polynomials(L, x); Q, dQ = plm_colombo(L, x)
    u = sines(ctx, x)
    for l in range(L + 1):
        for j in range(n):
            ctx.eq(P[l, j], Q[l, 0, j], 'functions', tol=1e-8)
            if x[j] * x[j] != 1: ctx.eq(dP[l, j] * u(j), dQ[l, 0, j] * u(j), 'derivatives', tol=1e-7)

def factorial_ratio(l, m):
    r = 1.0
    for k in range(l - m + 1, l + m + 1): r *= k
    return r

@contract('functions of one degree', ['gravity_toolkit.legendre.legendre', A + 'plm_colombo'], symbolic=False, bounded='degree up to 80, every order', samples=80)
def degree(ctx):
    l = ctx.rng.choice([0, 1, 2, 3, ctx.rng.randint(4, 20), ctx.rng.randint(20, 80)]); n = ctx.rng.randint(1, 4)
    x = xs(ctx, n)
    norm = ctx.rng.random() < 0.5
    P = legendre(l, x, NORMALIZE=norm)
    ctx.shape(P, (l + 1, n))
    Q, _ = plm_colombo(max(l, 1), x)
    for m in range(l + 1):
        # the unnormalised functions carry the phase of Condon and Shortley
        w = 1.0 if norm else (-1.0) ** m * np.sqrt(factorial_ratio(l, m) / ((1 if m == 0 else 2) * (2 * l + 1)))
        for j in range(n): ctx.eq(P[m, j], Q[l, m, j] * w, 'order %d' % m, tol=1e-7, scale=abs(w))

def exact(l, x):
    """normalised functions of one degree by the recurrence over degrees, in extended precision and range"""
    q = np.longdouble; x = q(x); s = np.sqrt(1 - x * x); out = []; p = q(1)
    for m in range(l + 1):
        if m: p = p * s * np.sqrt(q(2 * m + 1) / (2 * m if m > 1 else 1))
        a, b = q(0), p
        for n in range(m + 1, l + 1):
            A = np.sqrt(q((2 * n - 1) * (2 * n + 1)) / ((n - m) * (n + m))); B = np.sqrt(q((2 * n + 1) * (n + m - 1) * (n - m - 1)) / ((n - m) * (n + m) * (2 * n - 3))) if n > m + 1 else 0
            a, b = b, A * x * b - B * a
        out.append(b)
    return np.array(out, dtype='f8')

@contract('functions of one high degree near the poles', 'gravity_toolkit.legendre.legendre', symbolic=False, bounded='degree up to 300, every order', samples=25)
def underflow(ctx):
    l = ctx.choice('l', [50, 80, 121, 180, 200, 253, 300]); n = ctx.int('n', 1, draw=(1, 3))
    x = np.array([ctx.rng.choice([-1, 1]) * np.cos(10.0 ** ctx.rng.uniform(-4, 0)) for _ in range(n)])
    if ctx.rng.random() < 0.3: x[0] = ctx.rng.choice([-1.0, 1.0, 0.0])
    p = ctx.snap(x)
    P = legendre(l, x, NORMALIZE=True)
    ctx.shape(P, (l + 1, n))
    for j in range(n):
        w = exact(l, p[j]); s = np.max(np.abs(w))
        for m in range(l + 1): ctx.eq(P[m, j], w[m], 'function of degree %d and order %d' % (l, m), tol=1e-8, scale=s)
    ctx.eq(x, p, 'arguments unchanged', tol=0)
