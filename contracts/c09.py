import numpy as np
from dv.ctx import contract
from gravity_toolkit.spatial import spatial, scaling_factors
from contracts.common import spoil, mk_grid, GSnap as Snap, grid_setup as setup, R, sh
SP = 'gravity_toolkit.spatial.spatial.'
SF = 'gravity_toolkit.spatial.scaling_factors.'

def pointwise(ctx, r, ny, nx, nt, fv, valid, want, label):
    """every cell of r: invalid and fill where an operand is invalid, the named value elsewhere"""
    ctx.shape(r.data, sh(ny, nx, nt), label); ctx.shape(r.mask, sh(ny, nx, nt), label + ' mask')
    def one(*i):
        v, w = valid(*i), want(*i)
        ctx.when(v & (w != fv), lambda: ctx.check(ctx.close(r.data[i], w) & (r.mask[i] == False), label))
        ctx.when(ctx.lnot(v), lambda: ctx.check(ctx.same(r.data[i], fv) & (r.mask[i] == True), label + ': invalid cell'))
        ctx.when(v & (w == fv), lambda: ctx.check(ctx.same(r.data[i], fv) & (r.mask[i] == True), label + ': equal to the fill value'))
    ctx.forall(R(ny, nx, nt), one)

@contract('invalid cells are masked and hold the fill value', SP + 'update_mask')
def update_mask(ctx):
    err = ctx.choice('error', [False, True]); fill = ctx.choice('fill', [True, None])
    ny, nx, nt, a = setup(ctx, fill=None, error=err)
    if fill: a.fill_value = ctx.real('fv', draw=(-100.0, -90.0))
    put = ctx.choice('put', ['no', 'fill'])
    if fill and put == 'fill': a.data[0] = a.fill_value
    p = Snap(ctx, a); fv = a.fill_value
    r = a.update_mask()
    ctx.check(r is a, 'the object itself is returned')
    if fill is None: return p.unchanged(ctx, a, 'no fill value')
    def one(*i):
        bad = p.mask[i] | (p.data[i] == fv)
        ctx.check(a.mask[i] == bad, 'mask')
        ctx.when(bad, lambda: ctx.check(ctx.same(a.data[i], fv) if not err else ctx.same(a.data[i], fv) & ctx.same(a.error[i], fv), 'fill'))
        ctx.when(ctx.lnot(bad), lambda: ctx.check(ctx.same(a.data[i], p.data[i]) if not err else ctx.same(a.data[i], p.data[i]) & ctx.same(a.error[i], p.error[i]), 'valid cells'))
    ctx.forall(R(ny, nx, nt), one)
    p.unchanged(ctx, a, 'grid', only=('lat', 'lon', 'time', 'month'))

def binary(ctx, name, f):
    ny, nx, nt, a = setup(ctx)
    kinds = ['scalar', 'series', 'grid'] + (['cube'] if nt is not None else [])
    k = ctx.choice('operand', kinds)
    n = nt
    if k == 'scalar': v = ctx.real('v'); e = lambda *i: v
    elif k == 'series':
        if nt is None: n = ctx.int('n', 1, draw=(1, 4))
        v = ctx.arr('v', (n,)); e = lambda y, x, t: v[t]
    elif k == 'grid': v = ctx.arr('v', (ny, nx)); e = lambda y, x, *t: v[y, x]
    else: v = ctx.arr('v', (ny, nx, nt)); e = lambda *i: v[i]
    p = Snap(ctx, a); q = ctx.snap(v)
    r = getattr(a, name)(v)
    src = lambda *i: i if nt is not None else i[:2]
    pointwise(ctx, r, ny, nx, n, p.fill_value, lambda *i: p.mask[src(*i)] == False, lambda *i: f(p.data[src(*i)], e(*i)), name)
    for c in ('lat', 'lon', 'time', 'month'): ctx.eq(getattr(r, c), getattr(p, c), c, tol=0)
    ctx.check((r.data is not a.data) and (r.mask is not a.mask), 'new object')
    spoil(r)
    p.unchanged(ctx, a, 'operand')
    if k != 'scalar': ctx.eq(v, q, 'values unchanged', tol=0)

@contract('offsets add to every valid cell', SP + 'offset', samples=80)
def offset(ctx): binary(ctx, 'offset', lambda a, v: a + v)

@contract('scale factors multiply every valid cell', SP + 'scale', samples=80)
def scale(ctx): binary(ctx, 'scale', lambda a, v: a * v)

@contract('powers are taken of every valid cell', SP + 'power')
def power(ctx):
    ny, nx, nt, a = setup(ctx, nonzero=True)
    k = ctx.choice('power', [2, 1, 3, -1, 0, 2.0])
    p = Snap(ctx, a)
    r = a.power(k)
    pointwise(ctx, r, ny, nx, nt, p.fill_value, lambda *i: p.mask[i] == False, lambda *i: p.data[i] ** k, 'power')
    for c in ('lat', 'lon', 'time', 'month'): ctx.eq(getattr(r, c), getattr(p, c), c, tol=0)
    spoil(r)
    p.unchanged(ctx, a, 'operand')

@contract('sums over time are of the powers of every epoch', SP + 'sum')
def total(ctx):
    ny, nx, nt, a = setup(ctx, dims=['3d'])
    k = ctx.choice('power', [1, 2, None])
    p = Snap(ctx, a)
    r = a.sum() if k is None else a.sum(power=k)
    k = k or 1
    reduced(ctx, a, p, r, ny, nx, nt, lambda y, x: ctx.sum(0, nt, lambda t: p.data[y, x, t] ** k), 'sum')

def reduced(ctx, a, p, r, ny, nx, nt, want, label):
    pointwise(ctx, r, ny, nx, None, p.fill_value, lambda y, x: ctx.lnot(np.any(p.mask[y, x, :])), want, label)
    ctx.eq(r.lat, p.lat, 'latitude', tol=0); ctx.eq(r.lon, p.lon, 'longitude', tol=0)
    spoil(r)
    p.unchanged(ctx, a, 'operand')

@contract('the temporal mean is the average of the epochs', SP + 'mean')
def mean(ctx):
    ny, nx, nt, a = setup(ctx, dims=['3d'])
    p = Snap(ctx, a)
    r = a.mean()
    ctx.eq(r.time, ctx.sum(0, nt, lambda t: p.time[t]) / nt, 'mean time')
    reduced(ctx, a, p, r, ny, nx, nt, lambda y, x: ctx.sum(0, nt, lambda t: p.data[y, x, t]) / nt, 'mean')

@contract('the temporal mean of selected epochs averages those only', SP + 'mean')
def mean_of(ctx):
    ny, nx, nt, a = setup(ctx, dims=['3d'], nt=(2, 5))
    i = ctx.int('i', 0, draw=(0, 4)); j = ctx.int('j', 0, draw=(0, 4)); ctx.assume((i < nt) & (j < nt) & (i != j))
    p = Snap(ctx, a)
    r = a.mean(indices=[i, j])
    pointwise(ctx, r, ny, nx, None, p.fill_value, lambda y, x: (p.mask[y, x, i] == False) & (p.mask[y, x, j] == False), lambda y, x: (p.data[y, x, i] + p.data[y, x, j]) / 2, 'mean')
    ctx.eq(r.time, (p.time[i] + p.time[j]) / 2, 'mean time')
    p.unchanged(ctx, a, 'operand')

@contract('removing the temporal mean leaves the anomaly of every valid cell', SP + 'mean')
def anomaly(ctx):
    ny, nx, nt, a = setup(ctx, dims=['3d'])
    p = Snap(ctx, a)
    r = a.mean(apply=True)
    fv = p.fill_value
    def one(y, x, t):
        av = ctx.sum(0, nt, lambda s: p.data[y, x, s]) / nt
        ok = ctx.lnot(np.any(p.mask[y, x, :]))
        w = p.data[y, x, t] - av
        ctx.when(ok & (w != fv), lambda: ctx.check(ctx.close(a.data[y, x, t], w) & (a.mask[y, x, t] == False), 'anomaly'))
        ctx.when(p.mask[y, x, t], lambda: ctx.check(ctx.same(a.data[y, x, t], fv) & (a.mask[y, x, t] == True), 'invalid cell'))
        ctx.when(ctx.lnot(ok), lambda: ctx.check(ctx.same(a.data[y, x, t], fv) & (a.mask[y, x, t] == True), 'anomaly from an invalid mean'))
        ctx.when(ok & (av != fv), lambda: ctx.check(ctx.close(r.data[y, x], av) & (r.mask[y, x] == False), 'mean'))
    ctx.forall(R(ny, nx, nt), one)
    p.unchanged(ctx, a, 'grid', only=('lat', 'lon', 'time', 'month'))

@contract('extremes over time are the largest and smallest of the epochs', [SP + 'max', SP + 'min'])
def extremes(ctx):
    ny, nx, nt, a = setup(ctx, dims=['3d'])
    p = Snap(ctx, a); fv = p.fill_value
    which = ctx.choice('which', ['max', 'min'])
    r = getattr(a, which)()
    ctx.shape(r.data, (ny, nx)); ctx.shape(r.mask, (ny, nx))
    def one(y, x):
        ok = ctx.lnot(np.any(p.mask[y, x, :]))
        ctx.when(ctx.lnot(ok), lambda: ctx.check(ctx.same(r.data[y, x], fv) & (r.mask[y, x] == True), 'invalid cell'))
        ctx.when(ok, lambda: ctx.check(ctx.same(r.data[y, x], np.max(p.data[y, x, :]) if which == 'max' else np.min(p.data[y, x, :])), which))
    ctx.forall(R(ny, nx), one)
    ctx.eq(r.lat, p.lat, 'latitude', tol=0); ctx.eq(r.lon, p.lon, 'longitude', tol=0)
    spoil(r)
    p.unchanged(ctx, a, 'operand')

@contract('replacing the fill value changes the invalid cells only', SP + 'replace_invalid')
def replace_invalid(ctx):
    err = ctx.choice('error', [False, True]); fill = ctx.choice('fill', [True, None])
    ny, nx, nt, a = setup(ctx, error=err, fill=fill)
    k = ctx.choice('mask', ['none', 'same'] + (['grid'] if nt is not None else []))
    new = ctx.real('new', draw=(50.0, 60.0))
    m = None if k == 'none' else ctx.arr('m', sh(ny, nx, None if k == 'grid' else nt), kind='i', draw=(-1, 1)) > 0
    p = Snap(ctx, a); q = ctx.snap(m) if m is not None else None
    r = a.replace_invalid(new, mask=m) if m is not None else a.replace_invalid(new)
    ctx.check(r is a, 'the object itself is returned'); ctx.eq(a.fill_value, new, 'fill value', tol=0)
    ctx.shape(a.data, sh(ny, nx, nt)); ctx.shape(a.mask, sh(ny, nx, nt))
    def one(*i):
        bad = p.mask[i]
        if k == 'same': bad = bad | m[i]
        elif k == 'grid': bad = bad | m[i[:2]]
        ctx.check(a.mask[i] == bad, 'mask')
        ctx.when(bad, lambda: ctx.check(ctx.same(a.data[i], new) if not err else ctx.same(a.data[i], new) & ctx.same(a.error[i], new), 'new fill value'))
        ctx.when(ctx.lnot(bad), lambda: ctx.check(ctx.same(a.data[i], p.data[i]) if not err else ctx.same(a.data[i], p.data[i]) & ctx.same(a.error[i], p.error[i]), 'valid cells'))
    ctx.forall(R(ny, nx, nt), one)
    p2 = ('lat', 'lon', 'time', 'month')
    for c in p2: ctx.eq(getattr(a, c), getattr(p, c), c, tol=0)
    if m is not None: ctx.eq(m, q, 'mask given unchanged', tol=0)

@contract('masked cells are set to the fill value', [SP + 'replace_masked', SP + 'to_masked_array'])
def replace_masked(ctx):
    err = ctx.choice('error', [False, True]); fill = ctx.choice('fill', [True, None])
    ny, nx, nt, a = setup(ctx, fill=None, error=err)
    if fill: a.fill_value = ctx.real('fv', draw=(-100.0, -90.0))
    p = Snap(ctx, a); fv = a.fill_value
    r = a.replace_masked()
    ctx.check(r is a, 'the object itself is returned')
    if fill is None: return p.unchanged(ctx, a, 'no fill value')
    def one(*i):
        ctx.when(p.mask[i], lambda: ctx.check(ctx.same(a.data[i], fv) if not err else ctx.same(a.data[i], fv) & ctx.same(a.error[i], fv), 'fill'))
        ctx.when(ctx.lnot(p.mask[i]), lambda: ctx.check(ctx.same(a.data[i], p.data[i]) if not err else ctx.same(a.data[i], p.data[i]) & ctx.same(a.error[i], p.error[i]), 'valid cells'))
    ctx.forall(R(ny, nx, nt), one)
    p.unchanged(ctx, a, 'grid', only=('mask', 'lat', 'lon', 'time', 'month'))
    m = a.to_masked_array()
    ctx.eq(m.data, a.data, 'masked array', tol=0); ctx.eq(m.mask, a.mask, 'mask of the array', tol=0)
    if not ctx.symbolic: ctx.check(ctx.same(m.fill_value, fv), 'fill value of the array')

@contract('scaling factors are the least squares fit of one series to another', SF + 'kfactor')
def kfactor(ctx):
    ny = ctx.int('ny', 1, draw=(1, 4)); nx = ctx.int('nx', 1, draw=(1, 4)); nt = ctx.int('nt', 1, draw=(2, 4))
    cls = ctx.choice('class', [spatial, scaling_factors])
    fill = ctx.choice('fill', [True, None])
    a = mk_grid(ctx, 'a', ny, nx, nt, cls=scaling_factors, fill=fill, drawm=(-4, 1), sprinkle=(0.0,)); b = mk_grid(ctx, 'b', ny, nx, nt, cls=cls, fill=fill, drawm=(-4, 1))
    p = Snap(ctx, a); q = Snap(ctx, b)
    k = a.kfactor(b)
    ctx.shape(k.data, (ny, nx)); ctx.shape(k.error, (ny, nx)); ctx.shape(k.magnitude, (ny, nx)); ctx.shape(k.mask, (ny, nx))
    ctx.eq(k.fill_value, 0, 'fill value', tol=0)
    def one(y, x):
        ok = ctx.lnot(np.any(p.mask[y, x, :] | q.mask[y, x, :]))
        ab = ctx.sum(0, nt, lambda t: p.data[y, x, t] * q.data[y, x, t]); aa = ctx.sum(0, nt, lambda t: p.data[y, x, t] * p.data[y, x, t])
        bb = ctx.sum(0, nt, lambda t: q.data[y, x, t] ** 2)
        def good():
            f = ab / aa
            ctx.check(ctx.close(k.data[y, x], f) & (k.mask[y, x] == False), 'factor')
            ctx.check(ctx.close(k.error[y, x] ** 2 * nt, ctx.sum(0, nt, lambda t: (f * p.data[y, x, t] - q.data[y, x, t]) ** 2)), 'error')
            ctx.check(ctx.close(k.magnitude[y, x] ** 2, bb), 'magnitude')
        ctx.when(ok & (aa > 0) & (ab != 0) & (bb > 0), good)
        ctx.when(ctx.lnot(ok), lambda: ctx.check(ctx.same(k.data[y, x], 0) & ctx.same(k.error[y, x], 0) & ctx.same(k.magnitude[y, x], 0) & (k.mask[y, x] == True), 'invalid cell'))
    ctx.forall(R(ny, nx), one)
    ctx.eq(k.lat, p.lat, 'latitude', tol=0); ctx.eq(k.lon, p.lon, 'longitude', tol=0)
    p.unchanged(ctx, a, 'first series', only=('data', 'mask', 'lat', 'lon', 'time', 'month')); q.unchanged(ctx, b, 'second series', only=('data', 'mask', 'lat', 'lon', 'time', 'month'))
