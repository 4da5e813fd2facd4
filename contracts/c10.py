import numpy as np
from dv.ctx import contract
from gravity_toolkit.spatial import spatial
from contracts.common import spoil, mk_grid, GSnap as Snap, grid_setup as setup, R, sh
SP = 'gravity_toolkit.spatial.spatial.'
DME = ('data', 'mask', 'error')

def cells(ctx, b, src, ranges, label, keys=DME):
    """every cell of b is the cell of the source given by src(index)"""
    for k in keys:
        v = getattr(b, k)
        ctx.forall(ranges, lambda *i: ctx.check(ctx.same(v[i], src(k, *i)), label + '.' + k))

def mk(ctx, dims=('2d', '3d'), nt=(1, 4)):
    err = ctx.choice('error', [False, True]); fill = ctx.choice('fill', [True, None])
    ny, nx, n, a = setup(ctx, dims=dims, error=err, fill=fill, nt=nt)
    return ny, nx, n, a, DME if err else DME[:2]

@contract('copies are equal and independent', SP + 'copy')
def copies(ctx):
    ny, nx, nt, a, keys = mk(ctx)
    a.attributes = {'title': 'x'}; a.filename = 'name'
    p = Snap(ctx, a)
    b = a.copy()
    ctx.check(b is not a, 'new object')
    p.unchanged(ctx, b, 'copy')
    ctx.check(b.filename == 'name', 'file name'); ctx.check(b.attributes == {'title': 'x'}, 'attributes')
    spoil(b); b.attributes['title'] = 'y'
    p.unchanged(ctx, a, 'source'); ctx.check(a.attributes == {'title': 'x'}, 'attributes of the source')

@contract('zero grids have the shape and coordinates of their source', SP + 'zeros_like')
def zeros(ctx):
    ny, nx, nt, a, keys = mk(ctx)
    p = Snap(ctx, a)
    b = a.zeros_like()
    for k in keys: ctx.shape(getattr(b, k), sh(ny, nx, nt)); ctx.eq(getattr(b, k), 0, k, tol=0)
    ctx.eq(b.lat, p.lat, 'latitude', tol=0); ctx.eq(b.lon, p.lon, 'longitude', tol=0); ctx.eq(b.time, 0, 'time', tol=0); ctx.eq(b.month, 0, 'month', tol=0)
    ctx.shape(b.time, () if nt is None else (nt,)); ctx.shape(b.month, () if nt is None else (nt,))
    spoil(b)
    p.unchanged(ctx, a, 'source')

@contract('an added time dimension is removed again', [SP + 'expand_dims', SP + 'squeeze'])
def dims(ctx):
    ny, nx, nt, a, keys = mk(ctx)
    p = Snap(ctx, a)
    r = a.expand_dims()
    ctx.check(r is a, 'the object itself is returned')
    n = 1 if nt is None else nt
    for k in keys: ctx.shape(getattr(a, k), (ny, nx, n), k)
    cells(ctx, a, lambda k, y, x, t: getattr(p, k)[y, x] if nt is None else getattr(p, k)[y, x, t], R(ny, nx, n), 'expanded', keys)
    ctx.shape(a.time, (n,)); ctx.shape(a.month, (n,))
    if nt is None: ctx.eq(a.time[0], p.time, 'time', tol=0); ctx.eq(a.month[0], p.month, 'month', tol=0)
    if nt is None:
        r = a.squeeze()
        ctx.check(r is a, 'the object itself is returned')
        p.unchanged(ctx, a, 'squeezed')
        a.squeeze()
        p.unchanged(ctx, a, 'squeezed twice')
    else:
        ctx.assume(nt > 1)
        a.squeeze(); p.unchanged(ctx, a, 'series')

@contract('an epoch of a series is its grid and date', SP + 'index')
def index(ctx):
    ny, nx, nt, a, keys = mk(ctx, dims=['3d'])
    back = ctx.choice('from', ['start', 'end'])
    j = ctx.int('epoch', 0, draw=(0, 3)); ctx.assume(j < nt)
    p = Snap(ctx, a)
    b = a.index(j if back == 'start' else j - nt)
    for k in keys: ctx.shape(getattr(b, k), (ny, nx), k)
    cells(ctx, b, lambda k, y, x: getattr(p, k)[y, x, j], R(ny, nx), 'epoch', keys)
    ctx.eq(b.time, p.time[j], 'time', tol=0); ctx.eq(b.month, p.month[j], 'month', tol=0); ctx.shape(b.time, ()); ctx.shape(b.month, ())
    ctx.eq(b.lat, p.lat, 'latitude', tol=0); ctx.eq(b.lon, p.lon, 'longitude', tol=0)
    ctx.check(b.fill_value is p.fill_value or bool(b.fill_value == p.fill_value), 'fill value')
    spoil(b)
    p.unchanged(ctx, a, 'source')
    c = a.index(j, date=False)
    ctx.check(c.time is None and c.month is None, 'no date')

@contract('a list of grids becomes a series in the order of the list', SP + 'from_list')
def merge(ctx):
    n = ctx.choice('n', [1, 2, 3]); err = ctx.choice('error', [False, True])
    ny = ctx.int('ny', 1, draw=(1, 5)); nx = ctx.int('nx', 1, draw=(1, 5))
    fv = ctx.real('fill', draw=(-100.0, -90.0))
    gs = [mk_grid(ctx, 'g%d' % q, ny, nx, fill=fv, error=err) for q in range(n)]
    ps = [Snap(ctx, g) for g in gs]
    ctx.havoc_callee('gravity_toolkit.time', 'adjust_months')
    r = spatial().from_list(gs, sort=False)
    keys = DME if err else DME[:2]
    for k in keys:
        ctx.shape(getattr(r, k), (ny, nx, n), k)
        for q in range(n): ctx.forall(R(ny, nx), lambda y, x: ctx.check(ctx.same(getattr(r, k)[y, x, q], getattr(ps[q], k)[y, x]), k))
    for q in range(n): ctx.eq(r.time[q], ps[q].time, 'time', tol=0)
    ctx.eq(r.lat, ps[0].lat, 'latitude', tol=0); ctx.eq(r.lon, ps[0].lon, 'longitude', tol=0); ctx.eq(r.fill_value, fv, 'fill value', tol=0)
    spoil(r)
    for q in range(n): ps[q].unchanged(ctx, gs[q], 'listed object')

@contract('merged grids are sorted by date and keep their months', SP + 'from_list', symbolic=False, bounded='sorting of a symbolic list is outside the verifier; drawn dates and months', samples=60)
def merge_sorted(ctx):
    n = ctx.int('n', 1, 5, draw=(1, 5))
    ny = ctx.int('ny', 1, draw=(1, 4)); nx = ctx.int('nx', 1, draw=(1, 4))
    steps = ctx.arr('steps', (n,), kind='i', lo=1, hi=4); start = ctx.int('start', 1, 200)
    months = np.cumsum(steps) + start
    perm = list(range(n)); ctx.rng.shuffle(perm)
    named = ctx.choice('names', [False, True])
    gs = []
    for q in range(n):
        g = mk_grid(ctx, 'g%d' % q, ny, nx, date=False, fill=-9999.0); g.month = int(months[q]); g.time = 2002.0 + (g.month - 0.5) / 12.0
        if named: g.filename = 'f%d' % q
        gs.append(g)
    r = spatial().from_list([gs[q] for q in perm])
    for q in range(n):
        for k in ('data', 'mask'): ctx.eq(getattr(r, k)[:, :, q], getattr(gs[q], k), k, tol=0)
        ctx.eq(r.time[q], gs[q].time, 'time', tol=0); ctx.eq(r.month[q], gs[q].month, 'month', tol=0)
    ctx.check(list(r.filename) == (['f%d' % q for q in range(n)] if named else []), 'file names')
    u = spatial().from_list([gs[q] for q in perm], date=False)
    ctx.check(u.time is None and u.month is None, 'no dates')
    for q in range(n): ctx.eq(u.data[:, :, q], gs[perm[q]].data, 'undated: in the order of the list', tol=0)

@contract('iterating a series gives every epoch once, in order', [SP + '__iter__', SP + '__next__', SP + '__len__'], symbolic=False, bounded='iteration ends by an exception of NumPy; drawn series', samples=40)
def iterate(ctx):
    ny, nx, nt, a, keys = mk(ctx, dims=['3d'])
    names = ctx.choice('names', [False, True])
    if names: a.filename = ['f%d' % i for i in range(nt)]
    ctx.check(len(a) == nt, 'length')
    p = Snap(ctx, a)
    for again in range(2):
        n = 0
        for t, h in enumerate(a):
            for k in keys: ctx.eq(getattr(h, k), getattr(p, k)[:, :, t], k, tol=0)
            ctx.eq(h.time, p.time[t], 'time', tol=0); ctx.eq(h.month, p.month[t], 'month', tol=0)
            ctx.eq(h.lat, p.lat, 'latitude', tol=0); ctx.eq(h.lon, p.lon, 'longitude', tol=0)
            ctx.check(h.filename == ('f%d' % t if names else None), 'file name')
            h.data[:] = 5; h.mask[:] = True; h.lat[:] = 5; n += 1
        ctx.check(n == nt, 'every epoch')
    p.unchanged(ctx, a, 'source')
    a.time = None; a.month = None
    ctx.check(len([h for h in a]) == nt, 'without dates')

@contract('subsets are the requested months in the order of the series', SP + 'subset', symbolic=False, bounded='sets of months are outside the verifier; drawn series and subsets', samples=80)
def subset(ctx):
    ny, nx, nt, a, keys = mk(ctx, dims=['3d'])
    a.month = np.cumsum(ctx.arr('steps', (nt,), kind='i', lo=1, hi=5)) + 3
    names = ctx.choice('names', [None, 'list', 'one'])
    if names: a.filename = ['f%d' % i for i in range(nt)] if names == 'list' else 'series'
    k = ctx.int('picked', 1, 4); ctx.assume(k <= nt)
    pick = sorted(ctx.rng.sample(range(nt), k)); req = [int(a.month[i]) for i in pick]; ctx.rng.shuffle(req)
    p = Snap(ctx, a)
    b = a.subset(req if k > 1 else req[0])
    for q in keys:
        want = getattr(p, q)[:, :, pick]
        want = want[:, :, 0] if k == 1 else want
        ctx.shape(getattr(b, q), want.shape, q); ctx.eq(getattr(b, q), want, q, tol=0)
    ctx.eq(np.atleast_1d(b.time), p.time[pick], 'time', tol=0); ctx.eq(np.atleast_1d(b.month), p.month[pick], 'month', tol=0)
    ctx.eq(b.lat, p.lat, 'latitude', tol=0); ctx.eq(b.lon, p.lon, 'longitude', tol=0)
    if names: ctx.check(list(np.atleast_1d(b.filename)) == ['f%d' % i if names == 'list' else 'series' for i in pick], 'file names')
    b.data[:] = 5; b.lat[:] = 5
    p.unchanged(ctx, a, 'source')
    ctx.raises(IOError, lambda: a.subset(req + [int(a.month[-1]) + 1]), 'missing month')
    ctx.raises(IOError, lambda: a.subset([1]), 'missing month')

@contract('flipping reverses an axis with its coordinates', SP + 'flip')
def flip(ctx):
    ny, nx, nt, a, keys = mk(ctx)
    ax = ctx.choice('axis', [0, 1] + ([2] if nt is not None else []))
    p = Snap(ctx, a)
    b = a.flip(axis=ax)
    n = (ny, nx, nt)[ax]
    def rev(i): return tuple(n - 1 - j if d == ax else j for d, j in enumerate(i))
    for k in keys: ctx.shape(getattr(b, k), sh(ny, nx, nt), k)
    cells(ctx, b, lambda k, *i: getattr(p, k)[rev(i)], R(ny, nx, nt), 'flipped', keys)
    for d, k in enumerate(('lat', 'lon', 'time')):
        m = (ny, nx, nt)[d]
        if m is None: continue
        ctx.forall([(0, m)], lambda i: ctx.check(ctx.same(getattr(b, k)[i], getattr(p, k)[m - 1 - i if d == ax else i]), k))
    if nt is not None: ctx.forall([(0, nt)], lambda i: ctx.check(ctx.same(b.month[i], p.month[nt - 1 - i if ax == 2 else i]), 'month'))
    c = b.flip(axis=ax)
    p.unchanged(ctx, c, 'flipped twice')
    spoil(b)
    p.unchanged(ctx, a, 'source')

@contract('transposing moves every cell to its permuted place', SP + 'transpose')
def transpose(ctx):
    ny, nx, nt, a, keys = mk(ctx)
    axes = ctx.choice('axes', [None, (1, 0)] if nt is None else [None, (1, 0, 2), (2, 0, 1), (0, 2, 1)])
    p = Snap(ctx, a)
    b = a.transpose(axes) if axes is not None else a.transpose()
    n = [i for i in (ny, nx, nt) if i is not None]
    ax = axes or tuple(range(len(n)))[::-1]
    new = tuple(n[j] for j in ax)
    for k in keys: ctx.shape(getattr(b, k), new, k)
    def src(i):
        s = [None] * len(n)
        for d, j in enumerate(ax): s[j] = i[d]
        return tuple(s)
    cells(ctx, b, lambda k, *i: getattr(p, k)[src(i)], R(*new), 'transposed', keys)
    inv = tuple(ax.index(d) for d in range(len(ax)))
    c = b.transpose(inv)
    p.unchanged(ctx, c, 'transposed back')
    spoil(b)
    p.unchanged(ctx, a, 'source')

@contract('a global grid is wrapped by one column on each side', SP + 'extend_matrix')
def extend(ctx):
    ny, nx, nt, a, keys = mk(ctx)
    ctx.assume((nx >= 2) & (ny >= 2))
    p = Snap(ctx, a)
    b = a.extend_matrix()
    for k in keys: ctx.shape(getattr(b, k), sh(ny, nx + 2, nt), k)
    ctx.shape(b.lon, (nx + 2,)); ctx.eq(b.lat, p.lat, 'latitude', tol=0)
    def src(x): return ctx.ite(x == 0, nx - 1, ctx.ite(x == nx + 1, 0, x - 1))
    cells(ctx, b, lambda k, y, x, *t: getattr(p, k)[(y, src(x)) + t], R(ny, nx + 2, nt), 'extended', keys)
    ctx.forall([(0, nx)], lambda i: ctx.check(ctx.same(b.lon[i + 1], p.lon[i]), 'longitude'))
    d = abs(p.lon[1] - p.lon[0])
    ctx.check(ctx.close(b.lon[0], p.lon[0] - d), 'first longitude'); ctx.check(ctx.close(b.lon[nx + 1], p.lon[nx - 1] + d), 'last longitude')
    p.unchanged(ctx, a, 'source')

@contract('spacing, extent and shape are those of the coordinates', [SP + 'spacing', SP + 'extent', SP + 'shape', SP + 'ndim', SP + 'dtype'])
def geometry(ctx):
    ny, nx, nt, a, keys = mk(ctx)
    ctx.assume((nx >= 2) & (ny >= 2))
    dlon, dlat = a.spacing
    ctx.eq(dlon, abs(a.lon[1] - a.lon[0]), 'longitude spacing'); ctx.eq(dlat, abs(a.lat[1] - a.lat[0]), 'latitude spacing')
    e = a.extent
    ctx.check(len(e) == 4, 'extent')
    for q, (v, n, f) in enumerate(((a.lon, nx, np.min), (a.lon, nx, np.max), (a.lat, ny, np.min), (a.lat, ny, np.max))):
        ctx.eq(e[q], f(v), 'extent', tol=0)
        if q % 2: ctx.forall([(0, n)], lambda i: ctx.check(v[i] <= e[q], 'upper bound'))
        else: ctx.forall([(0, n)], lambda i: ctx.check(v[i] >= e[q], 'lower bound'))
    ctx.check(a.ndim == (2 if nt is None else 3), 'number of dimensions')
    s = a.shape
    ctx.check(len(s) == a.ndim, 'shape')
    ctx.check(s[0] == ny, 'rows'); ctx.check(s[1] == nx, 'columns')
    if nt is not None: ctx.check(s[2] == nt, 'epochs')

@contract('the description of a grid names its shape and months', SP + '__str__', symbolic=False, bounded='drawn objects', samples=20)
def text(ctx):
    ny, nx, nt, a, keys = mk(ctx)
    s = str(a)
    ctx.check('shape: %s' % ', '.join(map(str, a.data.shape)) in s, 'shape')
    ctx.check('start_month: %d' % np.min(a.month) in s and 'end_month: %d' % np.max(a.month) in s, 'months')
