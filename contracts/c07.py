import numpy as np
from dv.ctx import contract
from gravity_toolkit.harmonics import harmonics
from contracts.common import spoil, mk_harmonics, Snap
HM = 'gravity_toolkit.harmonics.harmonics.'
CS = ('clm', 'slm')

def setup(ctx, dims=('2d', '3d'), lmax=(0, 6), nonzero=False):
    d = ctx.choice('dims', list(dims))
    L = ctx.int('lmax', 0, draw=lmax); M = ctx.int('mmax', 0, draw=(0, lmax[1])); ctx.assume(M <= L)
    nt = ctx.int('nt', 1, draw=(1, 4)) if d == '3d' else None
    return L, M, nt, mk_harmonics(ctx, 'a', L, M, nt, nonzero=nonzero)

def rng(L, M, nt): return [(0, L + 1), (0, M + 1)] + ([] if nt is None else [(0, nt)])

def n_triangle(L, M): return (M + 1) * (L + 1) - M * (M + 1) // 2

@contract('vectors hold every coefficient of the triangle with its degree and order', HM + 'flatten', symbolic=False, bounded='the running index of nested loops is outside the verifier; drawn coefficients')
def flatten(ctx):
    L, M, nt, a = setup(ctx)
    p = Snap(ctx, a)
    v = a.flatten()
    n = n_triangle(L, M)
    ctx.shape(v.l, (n,)); ctx.shape(v.m, (n,))
    for k in CS: ctx.shape(getattr(v, k), (n,) if nt is None else (n, nt))
    def one(l, m):
        # the position of a coefficient
        j = m * (L + 1) - m * (m - 1) // 2 + l - m
        def ok():
            ctx.eq(v.l[j], l, 'degree'); ctx.eq(v.m[j], m, 'order')
            for k in CS:
                V, A = getattr(v, k), getattr(p, k)
                if nt is None: ctx.check(ctx.same(V[j], A[l, m]), k)
                else: ctx.forall([(0, nt)], lambda t: ctx.check(ctx.same(V[j, t], A[l, m, t]), k))
        ctx.when(m <= l, ok)
    ctx.forall([(0, L + 1), (0, M + 1)], one)
    ctx.eq(v.time, p.time, 'time', tol=0); ctx.eq(v.month, p.month, 'month', tol=0)
    ctx.check((v.lmax == L) & (v.mmax == M), 'maximum degree and order')
    p.unchanged(ctx, a, 'source')

@contract('expanding a vector restores every coefficient of the triangle', [HM + 'flatten', HM + 'expand'], symbolic=False, bounded='the running index of nested loops is outside the verifier; drawn coefficients')
def expand(ctx):
    L, M, nt, a = setup(ctx)
    p = Snap(ctx, a)
    b = a.flatten().expand()
    ctx.check((b.lmax == L) & (b.mmax == M), 'maximum degree and order')
    for k in CS:
        B, A = getattr(b, k), getattr(p, k)
        ctx.shape(B, p.clm.shape)
        ctx.forall(rng(L, M, nt), lambda *i: ctx.check(ctx.same(B[i], ctx.ite(i[1] <= i[0], A[i], 0)), k))
    ctx.eq(b.time, p.time, 'time', tol=0); ctx.eq(b.month, p.month, 'month', tol=0)

@contract('coefficients of a vector go to their degree and order', HM + 'expand')
def scatter(ctx):
    L = ctx.int('lmax', 0, draw=(0, 5)); M = ctx.int('mmax', 0, draw=(0, 5)); ctx.assume(M <= L)
    v = harmonics(lmax=L, mmax=M)
    d = ctx.int('degree', 0, draw=(0, 5)); o = ctx.int('order', 0, draw=(0, 5)); ctx.assume((d <= L) & (o <= M))
    c = ctx.arr('c', (1,)); s = ctx.arr('s', (1,))
    v.l = ctx.arr('l', (1,), kind='i', lo=0, hi=5) * 0 + d; v.m = ctx.arr('m', (1,), kind='i', lo=0, hi=5) * 0 + o
    v.clm = c; v.slm = s; v.flattened = True
    b = v.expand(date=False)
    for k, w in (('clm', c), ('slm', s)):
        B = getattr(b, k)
        ctx.shape(B, (L + 1, M + 1))
        ctx.forall([(0, L + 1), (0, M + 1)], lambda i, j: ctx.check(ctx.same(B[i, j], ctx.ite((i == d) & (j == o), w[0], 0)), k))

@contract('copies are equal and independent', HM + 'copy')
def copies(ctx):
    L, M, nt, a = setup(ctx)
    a.attributes = {'title': 'x'}; a.filename = 'name'
    p = Snap(ctx, a)
    b = a.copy()
    ctx.check(b is not a, 'new object')
    for k in ('clm', 'slm', 'time', 'month'): ctx.eq(getattr(b, k), getattr(p, k), k, tol=0)
    ctx.check((b.lmax == L) & (b.mmax == M), 'maximum degree and order')
    ctx.check(b.filename == 'name', 'file name'); ctx.check(b.attributes == {'title': 'x'}, 'attributes')
    ctx.eq(b.l, a.l, 'degrees', tol=0); ctx.eq(b.m, a.m, 'orders', tol=0)
    spoil(b)
    b.attributes['title'] = 'y'
    p.unchanged(ctx, a, 'source'); ctx.check(a.attributes == {'title': 'x'}, 'attributes of the source')
    q = Snap(ctx, b)
    for k in CS: getattr(a, k)[0, 0] = 78
    if nt is not None: a.time[0] = 78; a.month[0] = 78
    q.unchanged(ctx, b, 'copy')

@contract('copies of vectors keep their degrees and orders', [HM + 'copy', HM + 'flatten', HM + 'expand'], symbolic=False, bounded='the running index of nested loops is outside the verifier; drawn coefficients')
def copy_flat(ctx):
    L, M, nt, a = setup(ctx)
    v = a.flatten(); w = v.copy()
    for k in ('l', 'm', 'clm', 'slm'): ctx.eq(getattr(w, k), getattr(v, k), k, tol=0)
    ctx.check(w.flattened is True, 'flattened')

@contract('zero objects have their shape and only zeros', [HM + 'zeros', HM + 'zeros_like'])
def zeros(ctx):
    L, M, nt, a = setup(ctx)
    p = Snap(ctx, a)
    b = a.zeros_like()
    for k in CS:
        ctx.shape(getattr(b, k), p.clm.shape); ctx.eq(getattr(b, k), 0, k, tol=0)
    ctx.eq(b.time, 0, 'time', tol=0); ctx.eq(b.month, 0, 'month', tol=0)
    ctx.check((b.lmax == L) & (b.mmax == M), 'maximum degree and order')
    spoil(b)
    p.unchanged(ctx, a, 'source')
    c = harmonics().zeros(lmax=L, mmax=M, nt=nt)
    for k in CS:
        ctx.shape(getattr(c, k), p.clm.shape); ctx.eq(getattr(c, k), 0, k, tol=0)
    if nt is not None: ctx.shape(c.time, (nt,)); ctx.shape(c.month, (nt,)); ctx.eq(c.time, 0, 'time', tol=0)
    ctx.shape(c.l, (L + 1,)); ctx.shape(c.m, (M + 1,))
    d = harmonics().zeros(lmax=L)
    ctx.shape(d.clm, (L + 1, L + 1)); ctx.shape(d.slm, (L + 1, L + 1))

@contract('an added time dimension is removed again', [HM + 'expand_dims', HM + 'squeeze'])
def dims(ctx):
    L, M, nt, a = setup(ctx)
    p = Snap(ctx, a)
    r = a.expand_dims()
    ctx.check(r is a, 'the object itself is returned')
    n = 1 if nt is None else nt
    for k in CS:
        B, A = getattr(a, k), getattr(p, k)
        ctx.shape(B, (L + 1, M + 1, n))
        ctx.forall([(0, L + 1), (0, M + 1), (0, n)], lambda l, m, t: ctx.check(ctx.same(B[l, m, t], A[l, m] if nt is None else A[l, m, t]), k))
    ctx.shape(a.time, (n,)); ctx.shape(a.month, (n,))
    if nt is None:
        upd = ctx.choice('update', [True, False])
        a.squeeze(update_dimensions=upd)
        ctx.shape(a.clm, (L + 1, M + 1)); ctx.shape(a.slm, (L + 1, M + 1)); ctx.shape(a.time, ()); ctx.shape(a.month, ())
        p.unchanged(ctx, a, 'squeezed')
        a.squeeze()
        ctx.shape(a.clm, (L + 1, M + 1)); p.unchanged(ctx, a, 'squeezed twice')

@contract('an epoch of a series is its coefficients and date', HM + 'index')
def index(ctx):
    L, M, nt, a = setup(ctx, dims=['3d'])
    j = ctx.int('epoch', 0, draw=(0, 3)); ctx.assume(j < nt)
    p = Snap(ctx, a)
    b = a.index(j)
    for k in CS:
        B, A = getattr(b, k), getattr(p, k)
        ctx.shape(B, (L + 1, M + 1))
        ctx.forall([(0, L + 1), (0, M + 1)], lambda l, m: ctx.check(ctx.same(B[l, m], A[l, m, j]), k))
    ctx.eq(b.time, p.time[j], 'time', tol=0); ctx.eq(b.month, p.month[j], 'month', tol=0)
    ctx.check((b.lmax == L) & (b.mmax == M), 'maximum degree and order')
    spoil(b)
    p.unchanged(ctx, a, 'source')
    c = a.index(j, date=False)
    ctx.check(c.time is None and c.month is None, 'no date')

@contract('the last epoch is counted from the end', HM + 'index')
def last(ctx):
    L, M, nt, a = setup(ctx, dims=['3d'])
    b = a.index(-1)
    for k in CS:
        B, A = getattr(b, k), getattr(a, k)
        ctx.forall([(0, L + 1), (0, M + 1)], lambda l, m: ctx.check(ctx.same(B[l, m], A[l, m, nt - 1]), k))
    ctx.eq(b.time, a.time[nt - 1], 'time', tol=0); ctx.eq(b.month, a.month[nt - 1], 'month', tol=0)

@contract('truncation keeps the requested degrees and orders only', HM + 'truncate', samples=120)
def truncate(ctx):
    L, M, nt, a = setup(ctx)
    L2 = ctx.int('new_lmax', 0, draw=(0, 8)); lmin = ctx.int('lmin', 0, draw=(0, 4)); 
    how = ctx.choice('order', ['default', 'given'])
    if how == 'given':
        M2 = ctx.int('new_mmax', 0, draw=(0, 8)); ctx.assume(M2 <= L2)
    else: M2 = L2
    p = Snap(ctx, a)
    r = a.truncate(L2, lmin=lmin, mmax=(M2 if how == 'given' else None))
    ctx.check(r is a, 'the object itself is returned')
    ctx.check((a.lmax == L2) & (a.mmax == M2), 'maximum degree and order')
    ctx.shape(a.l, (L2 + 1,)); ctx.shape(a.m, (M2 + 1,))
    for k in CS:
        B, A = getattr(a, k), getattr(p, k)
        ctx.shape(B, (L2 + 1, M2 + 1) if nt is None else (L2 + 1, M2 + 1, nt))
        def one(*i):
            keep = (i[0] >= lmin) & (i[0] <= L) & (i[1] <= M)
            ctx.when(keep, lambda: ctx.check(ctx.same(B[i], A[i]), k + ': kept'))
            ctx.when(ctx.lnot(keep), lambda: ctx.check(ctx.same(B[i], 0), k + ': zero elsewhere'))
        ctx.forall(rng(L2, M2, nt), one)
    ctx.eq(a.time, p.time, 'time', tol=0); ctx.eq(a.month, p.month, 'month', tol=0)

@contract('a list of objects becomes a series in the order of the list', HM + 'from_list')
def merge(ctx):
    n = ctx.choice('n', [1, 2, 3])
    hs = []; ps = []; dm = []
    for q in range(n):
        L = ctx.int('lmax%d' % q, 0, draw=(0, 5)); M = ctx.int('mmax%d' % q, 0, draw=(0, 5)); ctx.assume(M <= L)
        h = mk_harmonics(ctx, 'h%d' % q, L, M); hs.append(h); ps.append(Snap(ctx, h)); dm.append((L, M))
    L = dm[0][0]; M = dm[0][1]
    for l, m in dm[1:]: L = ctx.ite(l < L, l, L); M = ctx.ite(m < M, m, M)
    ctx.havoc_callee('gravity_toolkit.time', 'adjust_months')
    r = harmonics().from_list(hs, sort=False)
    for k in CS:
        R = getattr(r, k)
        ctx.shape(R, (L + 1, M + 1, n))
        for q in range(n):
            A = getattr(ps[q], k)
            ctx.forall([(0, L + 1), (0, M + 1)], lambda i, j: ctx.check(ctx.same(R[i, j, q], A[i, j]), k))
    for q in range(n): ctx.eq(r.time[q], ps[q].time, 'time', tol=0)
    spoil(r)
    for q in range(n): ps[q].unchanged(ctx, hs[q], 'listed object')

@contract('merged objects are sorted by date and keep their months', HM + 'from_list', symbolic=False, bounded='sorting of a symbolic list is outside the verifier; drawn dates and months', samples=60)
def merge_sorted(ctx):
    n = ctx.int('n', 1, 5, draw=(1, 5))
    L = ctx.int('lmax', 0, draw=(0, 4)); M = ctx.int('mmax', 0, draw=(0, 4)); ctx.assume(M <= L)
    steps = ctx.arr('steps', (n,), kind='i', lo=1, hi=4); start = ctx.int('start', 1, 200)
    months = np.cumsum(steps) + start
    perm = list(range(n)); ctx.rng.shuffle(perm)
    hs = []
    for q in range(n):
        h = mk_harmonics(ctx, 'h%d' % q, L, M, time=False); h.month = int(months[q]); h.time = 2002.0 + (h.month - 0.5) / 12.0; hs.append(h)
    r = harmonics().from_list([hs[q] for q in perm])
    for q in range(n):
        ctx.eq(r.clm[:, :, q], hs[q].clm, 'clm', tol=0); ctx.eq(r.slm[:, :, q], hs[q].slm, 'slm', tol=0)
        ctx.eq(r.time[q], hs[q].time, 'time', tol=0); ctx.eq(r.month[q], hs[q].month, 'month', tol=0)
    u = harmonics().from_list([hs[q] for q in perm], date=False)
    ctx.check(u.time is None and u.month is None, 'no dates')
    for q in range(n): ctx.eq(u.clm[:, :, q], hs[perm[q]].clm, 'undated: in the order of the list', tol=0)

@contract('iterating a series gives every epoch once, in order', [HM + '__iter__', HM + '__next__', HM + '__len__'], symbolic=False, bounded='iteration ends by an exception of NumPy; drawn series', samples=40)
def iterate(ctx):
    L, M, nt, a = setup(ctx, dims=['3d'])
    names = ctx.choice('names', [False, True])
    if names: a.filename = ['f%d' % i for i in range(nt)]
    ctx.check(len(a) == nt, 'length')
    for again in range(2):
        n = 0
        for t, h in enumerate(a):
            for k in CS: ctx.eq(getattr(h, k), getattr(a, k)[:, :, t], k, tol=0)
            ctx.eq(h.time, a.time[t], 'time', tol=0); ctx.eq(h.month, a.month[t], 'month', tol=0)
            ctx.check(h.filename == ('f%d' % t if names else None), 'file name')
            q = Snap(ctx, a); spoil(h); q.unchanged(ctx, a, 'source'); n += 1
        ctx.check(n == nt, 'every epoch')
    a.time = None; a.month = None
    ctx.check(len([h for h in a]) == nt, 'without dates')

@contract('subsets are the requested months in the order of the series', HM + 'subset', symbolic=False, bounded='sets of months are outside the verifier; drawn series and subsets', samples=80)
def subset(ctx):
    L, M, nt, a = setup(ctx, dims=['3d'])
    a.month = np.cumsum(ctx.arr('steps', (nt,), kind='i', lo=1, hi=5)) + 3
    k = ctx.int('picked', 1, 4); ctx.assume(k <= nt)
    names = ctx.choice('names', [None, 'list', 'one'])
    if names: a.filename = ['f%d' % i for i in range(nt)] if names == 'list' else 'series'
    pick = sorted(ctx.rng.sample(range(nt), k)); req = [int(a.month[i]) for i in pick]; ctx.rng.shuffle(req)
    p = Snap(ctx, a)
    b = a.subset(req if k > 1 else req[0])
    for q in CS:
        want = getattr(p, q)[:, :, pick]
        ctx.eq(getattr(b, q), want[:, :, 0] if k == 1 else want, q, tol=0)
    ctx.eq(np.atleast_1d(b.time), p.time[pick], 'time', tol=0); ctx.eq(np.atleast_1d(b.month), p.month[pick], 'month', tol=0)
    if names: ctx.check(list(np.atleast_1d(b.filename)) == ['f%d' % i if names == 'list' else 'series' for i in pick], 'file names')
    spoil(b)
    p.unchanged(ctx, a, 'source')
    ctx.raises(IOError, lambda: a.subset(req + [int(a.month[-1]) + 1]), 'missing month')
    ctx.raises(IOError, lambda: a.subset([1]), 'missing month')

@contract('the masked array has sine coefficients at negative orders', HM + 'to_masked_array', symbolic=False, bounded='masked arrays are outside the verifier; drawn coefficients', samples=30)
def masked(ctx):
    L, M, nt, a = setup(ctx, lmax=(0, 5))
    p = Snap(ctx, a)
    Y = a.to_masked_array()
    n = 1 if nt is None else nt
    ctx.shape(Y, (L + 1, 2 * L + 1, n))
    c = p.clm.reshape(L + 1, M + 1, n); s = p.slm.reshape(L + 1, M + 1, n)
    for l in range(L + 1):
        for m in range(-L, L + 1):
            ok = abs(m) <= min(l, M)
            ctx.check(bool(np.all(Y.mask[l, L + m] == (not ok))), 'valid where order is within degree')
            if ok: ctx.eq(Y.data[l, L + m], (c if m >= 0 else s)[l, abs(m)], 'coefficient', tol=0)
    p.unchanged(ctx, a, 'source')

@contract('dictionaries hold the coefficients and give them back', [HM + 'to_dict', HM + 'from_dict'], symbolic=False, bounded='drawn coefficients', samples=20)
def dicts(ctx):
    L, M, nt, a = setup(ctx, dims=['3d'])
    b = harmonics().from_dict(a.to_dict())
    for k in ('clm', 'slm', 'time', 'month', 'l', 'm'): ctx.eq(getattr(b, k), getattr(a, k), k, tol=0)
    ctx.check(b.lmax == L and b.mmax == M, 'maximum degree and order')
    ctx.check(b['clm'] is b.clm, 'by key'); b['clm'] = a.clm; ctx.check(b.clm is a.clm, 'by key')

@contract('the description of an object names its degrees and months', HM + '__str__', symbolic=False, bounded='drawn objects', samples=20)
def text(ctx):
    L, M, nt, a = setup(ctx)
    s = str(a)
    ctx.check('max_degree: %d' % L in s, 'maximum degree')
    if M and M != L: ctx.check('max_order: %d' % M in s, 'maximum order')
    ctx.check('start_month: %d' % np.min(a.month) in s and 'end_month: %d' % np.max(a.month) in s, 'months')
