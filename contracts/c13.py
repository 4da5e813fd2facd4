import numpy as np
from dv.ctx import contract
from gravity_toolkit.geocenter import geocenter
from gravity_toolkit.harmonics import harmonics
from contracts.common import mk_harmonics, Snap
GC = 'gravity_toolkit.geocenter.geocenter.'
C3 = ('C10', 'C11', 'S11'); E3 = ('eC10', 'eC11', 'eS11'); X3 = ('X', 'Y', 'Z'); S3 = ('X_sigma', 'Y_sigma', 'Z_sigma')
PAIR = (('Z', 'C10'), ('X', 'C11'), ('Y', 'S11'))

def make(ctx, name, n, fields=C3, nonzero=False, radius=None, lo=None, hi=None):
    g = geocenter() if radius is None else geocenter(radius=radius)
    for f in fields: setattr(g, f, ctx.arr(name + '_' + f, (n,), nonzero=nonzero, lo=lo, hi=hi))
    g.time = ctx.arr(name + '_time', (n,), draw=(2002.0, 2020.0)); g.month = ctx.arr(name + '_month', (n,), kind='i', draw=(1, 300))
    return g

class Keep:
    def __init__(self, ctx, g, fields):
        self.v = {f: ctx.snap(getattr(g, f)) for f in fields}
    def unchanged(self, ctx, g, label):
        for f in self.v: ctx.eq(getattr(g, f), self.v[f], label + ' ' + f, tol=0)

def length(ctx): return ctx.int('n', 1, draw=(1, 5))
def earth(ctx):
    r = ctx.real('radius', draw=(6.3e9, 6.4e9)); k = ctx.real('kl', draw=(-0.5, 0.5)); ctx.assume((r > 0) & (k > -1))
    return r, k

@contract('the default radius is that of the sphere of equal volume in mm', GC + '__init__', samples=1)
def radius(ctx):
    g = geocenter()
    ctx.eq(g.radius ** 3, ctx.lit('6378137000') ** 3 * (1 - 1 / ctx.lit('298.257223563')), 'radius', tol=1e-12)

@contract('motion of the centre follows from degree one with its axes', GC + 'to_cartesian')
def to_xyz(ctx):
    n = length(ctx); r, k = earth(ctx)
    g = make(ctx, 'g', n, C3 + E3, radius=r); p = Keep(ctx, g, C3 + E3 + ('time', 'month'))
    ret = g.to_cartesian(kl=k)
    ctx.check(ret is g, 'the object itself is returned')
    for x, c in PAIR:
        ctx.shape(getattr(g, x), (n,))
        ctx.eq(getattr(g, x) * (1 + k), p.v[c] * r * np.sqrt(3.0), x)
        ctx.eq(getattr(g, x + '_sigma') * (1 + k), p.v['e' + c] * r * np.sqrt(3.0), x + ' error')
    p.unchanged(ctx, g, 'unchanged')

@contract('degree one follows from the motion of the centre with its axes', GC + 'from_cartesian')
def from_xyz(ctx):
    n = length(ctx); r, k = earth(ctx)
    g = make(ctx, 'g', n, X3 + S3, radius=r); p = Keep(ctx, g, X3 + S3 + ('time', 'month'))
    ret = g.from_cartesian(kl=k)
    ctx.check(ret is g, 'the object itself is returned')
    for x, c in PAIR:
        ctx.shape(getattr(g, c), (n,))
        ctx.forall([(0, n)], lambda i: ctx.eq(getattr(g, c)[i] * r * np.sqrt(3.0), (1 + k) * p.v[x][i], c))
        ctx.forall([(0, n)], lambda i: ctx.eq(getattr(g, 'e' + c)[i] * r * np.sqrt(3.0), (1 + k) * p.v[x + '_sigma'][i], c + ' error'))
    p.unchanged(ctx, g, 'unchanged')

@contract('the default motion uses no deformation', [GC + 'to_cartesian', GC + 'from_cartesian', GC + 'to_cmwe', GC + 'from_cmwe'])
def defaults(ctx):
    n = length(ctx)
    g = make(ctx, 'g', n); p = Keep(ctx, g, C3)
    g.to_cartesian()
    for x, c in PAIR: ctx.eq(getattr(g, x), p.v[c] * g.radius * np.sqrt(3.0), x)
    g.from_cartesian()
    for x, c in PAIR: ctx.eq(getattr(g, c), p.v[c], c)
    g.to_cmwe()
    for c in C3: ctx.eq(getattr(g, c), p.v[c] * ctx.lit('5.517') * ctx.lit('6.371e8'), c)
    g.from_cmwe()
    for c in C3: ctx.eq(getattr(g, c), p.v[c], c)

@contract('the motion of the centre is restored by the inverse conversion', [GC + 'to_cartesian', GC + 'from_cartesian'])
def xyz_round(ctx):
    n = length(ctx); r, k = earth(ctx)
    g = make(ctx, 'g', n, C3 + E3, radius=r); p = Keep(ctx, g, C3 + E3)
    g.to_cartesian(kl=k)
    h = geocenter(radius=r)
    for x in X3 + S3: setattr(h, x, getattr(g, x))
    h.from_cartesian(kl=k)
    for c in C3 + E3: ctx.eq(getattr(h, c), p.v[c], c)

@contract('centimetres water equivalent are the coefficients times density and radius', [GC + 'to_cmwe', GC + 'to_mmwe'])
def to_we(ctx):
    n = length(ctx); r, k = earth(ctx)
    mm = ctx.choice('unit', ['cm', 'mm']); err = ctx.choice('errors', [True, False])
    F = C3 + E3 if err else C3
    g = make(ctx, 'g', n, F, radius=r); p = Keep(ctx, g, F + ('time', 'month'))
    ret = g.to_mmwe(kl=k) if mm == 'mm' else g.to_cmwe(kl=k)
    ctx.check(ret is g, 'the object itself is returned')
    for c in F: ctx.forall([(0, n)], lambda i: ctx.eq(getattr(g, c)[i] * (1 + k), p.v[c][i] * ctx.lit('5.517') * ctx.lit('6.371e8') * (10 if mm == 'mm' else 1), c))
    ctx.eq(g.time, p.v['time'], 'time', tol=0); ctx.eq(g.month, p.v['month'], 'month', tol=0)

@contract('water equivalents are restored by the inverse conversion', [GC + 'to_cmwe', GC + 'to_mmwe', GC + 'from_cmwe', GC + 'from_mmwe'])
def we_round(ctx):
    n = length(ctx); r, k = earth(ctx)
    mm = ctx.choice('unit', ['cm', 'mm']); err = ctx.choice('errors', [True, False])
    F = C3 + E3 if err else C3
    g = make(ctx, 'g', n, F, radius=r); p = Keep(ctx, g, F)
    if mm == 'mm': g.to_mmwe(kl=k); g.from_mmwe(kl=k)
    else: g.to_cmwe(kl=k); g.from_cmwe(kl=k)
    for c in F: ctx.eq(getattr(g, c), p.v[c], c)
    h = g.copy()
    if mm == 'mm': g.from_mmwe(kl=k); g.to_mmwe(kl=k)
    else: g.from_cmwe(kl=k); g.to_cmwe(kl=k)
    for c in F: ctx.eq(getattr(g, c), p.v[c], c)

OPS = {'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b, 'divide': lambda a, b: a / b}

@contract('arithmetic acts on all three components of every epoch', [GC + o for o in OPS])
def arithmetic(ctx):
    n = length(ctx); op = ctx.choice('operation', list(OPS))
    a = make(ctx, 'a', n, nonzero=True); b = make(ctx, 'b', n, nonzero=True)
    pa = Keep(ctx, a, C3 + ('time', 'month')); pb = Keep(ctx, b, C3 + ('time', 'month'))
    r = getattr(a, op)(b)
    ctx.check(r is a, 'the object itself is returned')
    for c in C3: ctx.forall([(0, n)], lambda i: ctx.eq(getattr(a, c)[i], OPS[op](pa.v[c][i], pb.v[c][i]), c))
    pb.unchanged(ctx, b, 'argument'); ctx.eq(a.time, pa.v['time'], 'time', tol=0); ctx.eq(a.month, pa.v['month'], 'month', tol=0)

@contract('scaled and raised series are new objects', [GC + 'scale', GC + 'power'])
def scaled(ctx):
    n = length(ctx); how = ctx.choice('how', ['number', 'series', 'power'])
    a = make(ctx, 'a', n); p = Keep(ctx, a, C3 + ('time', 'month'))
    if how == 'number': v = ctx.real('factor'); r = a.scale(v); f = lambda x, i: v * x
    elif how == 'series': v = ctx.arr('factor', (n,)); r = a.scale(v); f = lambda x, i: v[i] * x
    else: v = ctx.choice('exponent', [0, 1, 2, 3]); r = a.power(v); f = lambda x, i: x ** v
    ctx.check(r is not a, 'new object')
    for c in C3:
        ctx.shape(getattr(r, c), (n,))
        ctx.forall([(0, n)], lambda i: ctx.eq(getattr(r, c)[i], f(p.v[c][i], i), c))
    ctx.eq(r.time, p.v['time'], 'time', tol=0); ctx.eq(r.month, p.v['month'], 'month', tol=0)
    ctx.eq(r.radius, a.radius, 'radius', tol=0)
    p.unchanged(ctx, a, 'source')
    for c in C3: getattr(r, c)[0] = 77
    r.time[0] = 77; r.month[0] = 77
    p.unchanged(ctx, a, 'source after the result is modified')

@contract('the mean is the average of each component and can be removed', GC + 'mean')
def mean(ctx):
    n = length(ctx); ap = ctx.choice('apply', [False, True])
    a = make(ctx, 'a', n); p = Keep(ctx, a, C3 + ('time', 'month'))
    r = a.mean(apply=ap)
    for c in C3:
        ctx.eq(getattr(r, c) * n, ctx.sum(0, n, lambda i: p.v[c][i]), c)
        ctx.forall([(0, n)], lambda i: ctx.eq(getattr(a, c)[i], p.v[c][i] - (getattr(r, c) if ap else 0), c + ' of the series'))
    ctx.eq(r.time * n, ctx.sum(0, n, lambda i: p.v['time'][i]), 'time'); ctx.eq(r.month * n, ctx.sum(0, n, lambda i: p.v['month'][i]), 'month')
    ctx.eq(a.time, p.v['time'], 'time unchanged', tol=0); ctx.eq(a.month, p.v['month'], 'month unchanged', tol=0)

@contract('the mean over selected epochs averages those only', GC + 'mean')
def mean_some(ctx):
    n = ctx.int('n', 3, draw=(3, 6)); k = ctx.int('k', 1, draw=(1, 4)); ctx.assume(k <= n)
    a = make(ctx, 'a', n); p = Keep(ctx, a, C3 + ('time', 'month')); ap = ctx.choice('apply', [False, True])
    j = ctx.arr('indices', (k,), kind='i', lo=0, hi=2)
    r = a.mean(apply=ap, indices=j)
    for c in C3:
        ctx.eq(getattr(r, c) * k, ctx.sum(0, k, lambda i: p.v[c][j[i]]), c)
        ctx.forall([(0, n)], lambda i: ctx.eq(getattr(a, c)[i], p.v[c][i] - (getattr(r, c) if ap else 0), c + ' of the series'))

@contract('copies are equal and independent', GC + 'copy')
def copies(ctx):
    n = length(ctx); r, k = earth(ctx)
    a = make(ctx, 'a', n, C3 + E3 + X3, radius=r); F = C3 + E3 + X3 + ('time', 'month'); p = Keep(ctx, a, F)
    b = a.copy()
    ctx.check(b is not a, 'new object'); p.unchanged(ctx, b, 'copy'); ctx.eq(b.radius, r, 'radius', tol=0)
    for f in F: getattr(b, f)[0] = 77
    p.unchanged(ctx, a, 'source')
    q = Keep(ctx, b, F)
    for f in F: getattr(a, f)[0] = 78
    q.unchanged(ctx, b, 'copy after the source is modified')

@contract('degree one coefficients are taken from harmonics', GC + 'from_harmonics')
def from_harm(ctx):
    d = ctx.choice('dims', ['2d', '3d'])
    L = ctx.int('lmax', 1, draw=(1, 4)); M = ctx.int('mmax', 1, draw=(1, 4)); ctx.assume(M <= L)
    nt = ctx.int('nt', 1, draw=(1, 4)) if d == '3d' else None
    h = mk_harmonics(ctx, 'h', L, M, nt); p = Snap(ctx, h)
    g = geocenter().from_harmonics(h)
    if nt is None:
        ctx.eq(g.C10, p.clm[1, 0], 'C10', tol=0); ctx.eq(g.C11, p.clm[1, 1], 'C11', tol=0); ctx.eq(g.S11, p.slm[1, 1], 'S11', tol=0)
    else:
        for c in C3: ctx.shape(getattr(g, c), (nt,))
        ctx.forall([(0, nt)], lambda t: ctx.eq(g.C10[t], p.clm[1, 0, t], 'C10', tol=0))
        ctx.forall([(0, nt)], lambda t: ctx.eq(g.C11[t], p.clm[1, 1, t], 'C11', tol=0))
        ctx.forall([(0, nt)], lambda t: ctx.eq(g.S11[t], p.slm[1, 1, t], 'S11', tol=0))
        for c in C3: getattr(g, c)[0] = 77
        g.time[0] = 77; g.month[0] = 77
    p.unchanged(ctx, h, 'source')
    ctx.eq(g.time[1] if False else h.time, p.time, 'time', tol=0)

@contract('matrices of degree one hold the components and give them back', [GC + 'to_matrix', GC + 'from_matrix'])
def matrices(ctx):
    n = length(ctx)
    a = make(ctx, 'a', n); p = Keep(ctx, a, C3)
    d = a.to_matrix()
    ctx.shape(d['clm'], (2, 2, n)); ctx.shape(d['slm'], (2, 2, n))
    def one(l, m, t):
        ctx.eq(d['clm'][l, m, t], ctx.ite((l == 1) & (m == 0), p.v['C10'][t], ctx.ite((l == 1) & (m == 1), p.v['C11'][t], 0)), 'cosine', tol=0)
        ctx.eq(d['slm'][l, m, t], ctx.ite((l == 1) & (m == 1), p.v['S11'][t], 0), 'sine', tol=0)
    ctx.forall([(0, 2), (0, 2), (0, n)], one)
    b = geocenter().from_matrix(d['clm'], d['slm'])
    for c in C3: ctx.eq(getattr(b, c), p.v[c], c, tol=0)
    d['clm'][1, 0, 0] = 77; p.unchanged(ctx, a, 'source')

@contract('dictionaries hold the fields and give them back', [GC + 'to_dict', GC + 'from_dict'])
def dicts(ctx):
    n = length(ctx)
    F = C3 + E3 + X3 + S3 + ('time', 'month')
    a = make(ctx, 'a', n, C3 + E3 + X3 + S3); p = Keep(ctx, a, F)
    d = a.to_dict()
    b = geocenter().from_dict(d)
    p.unchanged(ctx, b, 'restored')
    for f in F: getattr(b, f)[0] = 77; d[f][0] = 78
    p.unchanged(ctx, a, 'source')

@contract('iterating gives every epoch once, in order', [GC + '__iter__', GC + '__next__', GC + '__len__'], symbolic=False, bounded='iteration ends by an exception of NumPy; drawn series', samples=30)
def iterate(ctx):
    n = length(ctx); a = make(ctx, 'a', n, radius=6.4e9)
    ctx.check(len(a) == n, 'length')
    for again in range(2):
        k = 0
        for t, g in enumerate(a):
            for f in C3 + ('time', 'month'): ctx.eq(getattr(g, f), getattr(a, f)[t], f, tol=0)
            ctx.eq(g.radius, 6.4e9, 'radius', tol=0); k += 1
        ctx.check(k == n, 'every epoch')
    s = str(a)
    ctx.check('start_month: %d' % np.min(a.month) in s and 'end_month: %d' % np.max(a.month) in s, 'description')
    ctx.check(a['C10'] is a.C10, 'by key'); ctx.check(a.fields == ['C10', 'C11', 'S11'], 'fields')
    ctx.eq(a.get('C11'), a.C11, 'get', tol=0)

# -- readers
BF = 'file parsing is outside the verifier; drawn values and months'

def drawn(ctx):
    n = ctx.int('n', 1, 5, draw=(1, 5)); m0 = ctx.int('month0', 4, 200)
    mon = np.cumsum(ctx.arr('steps', (n,), kind='i', lo=1, hi=3)) + m0
    v = {c: ctx.arr(c, (n,), lo=-5.0, hi=5.0) for c in ('z', 'x', 'y', 'ez', 'ex', 'ey')}
    yr = 2002 + (mon - 1) // 12; mo = (mon - 1) % 12
    return n, mon, v, yr, mo

def put(ctx, name, lines):
    import os
    p = os.path.join(ctx.tmpdir(), name); open(p, 'w').write('\n'.join(lines) + '\n'); return p

@contract('files of the UCI layout are read to their values', GC + 'from_UCI', symbolic=False, bounded=BF, samples=25)
def uci(ctx):
    n, mon, v, yr, mo = drawn(ctx)
    t = yr + (mo + ctx.arr('part', (n,), lo=0.15, hi=0.85)) / 12
    names = ['C10', 'C11', 'S11']; err = ctx.choice('errors', [False, True])
    if err: names += ['eC10', 'eC11', 'eS11']
    order = list(range(len(names))); ctx.rng.shuffle(order)      # the header names the columns
    key = dict(zip(['C10', 'C11', 'S11', 'eC10', 'eC11', 'eS11'], ('z', 'x', 'y', 'ez', 'ex', 'ey')))
    head = ['header:', '  variables:', '    mid-epoch_time:', '      comment: 1st column']
    for i, q in enumerate(order): head += ['    %s:' % names[q], '      comment: %dth column' % (i + 2)]
    head += ['    month:', '      comment: %dth column' % (len(names) + 2), '# End of YAML header']
    rows = ['%12.6f ' % t[i] + ' '.join('%14.6e' % v[key[names[q]]][i] for q in order) + ' %03d' % mon[i] for i in range(n)]
    g = geocenter().from_UCI(put(ctx, 'uci.txt', head + rows))
    ctx.eq(g.time, [float('%12.6f' % x) for x in t], 'time', tol=1e-14); ctx.eq(g.month, mon, 'month', tol=0)
    for c in names: ctx.eq(getattr(g, c), [float('%14.6e' % x) for x in v[key[c]]], c, tol=1e-14)

@contract('files of the Swenson layout are read in mm water equivalent', GC + 'from_swenson', symbolic=False, bounded=BF, samples=25)
def swenson(ctx):
    n, mon, v, yr, mo = drawn(ctx)
    t = yr + (mo + ctx.arr('part', (n,), lo=0.15, hi=0.85)) / 12; col = ctx.choice('month column', [True, False])
    rows = ['%10.5f %10.5f %10.5f %10.5f' % (t[i], v['z'][i], v['x'][i], v['y'][i]) + (' %d' % mon[i] if col else '') for i in range(n)]
    g = geocenter().from_swenson(put(ctx, 'sw.txt', ['text', 'Time C10 C11 S11'] + rows))
    ctx.eq(g.time, [float('%10.5f' % x) for x in t], 'time', tol=1e-14); ctx.eq(g.month, mon, 'month', tol=0)
    for c, k in (('C10', 'z'), ('C11', 'x'), ('S11', 'y')):
        ctx.eq(getattr(g, c) * (5.517 * 6.371e8) * 10, [float('%10.5f' % x) for x in v[k]], c, tol=1e-12)

@contract('files of the GravIS layout are read to their values', GC + 'from_gravis', symbolic=False, bounded=BF, samples=25)
def gravis(ctx):
    n, mon, v, yr, mo = drawn(ctx)
    t = yr + (mo + ctx.arr('part', (n,), lo=-0.25, hi=0.25)) / 12      # dates are those of the beginning of a month
    rows = ['%.1f %.4f' % (52000 + i, t[i]) + ''.join(' %.8e %.4f %.4f' % (v[a][i] * 1e-10, 0.5, v[e][i]) for a, e in (('z', 'ez'), ('x', 'ex'), ('y', 'ey'))) for i in range(n)]
    g = geocenter().from_gravis(put(ctx, 'gv.txt', ['TITLE: x', 'PRODUCT: y'] + rows))
    ctx.eq(g.time, [float('%.4f' % x) for x in t], 'time', tol=1e-14); ctx.eq(g.month, mon, 'month', tol=0)
    for c, k in (('C10', 'z'), ('C11', 'x'), ('S11', 'y')):
        ctx.eq(getattr(g, c) * 1e10, [float('%.8e' % (x * 1e-10)) * 1e10 for x in v[k]], c, tol=1e-13); ctx.eq(getattr(g, 'e' + c) * 1e10, [float('%.4f' % x) for x in v['e' + k]], 'error of ' + c, tol=1e-12)

@contract('files of the Tellus layout are read to their values', GC + 'from_tellus', symbolic=False, bounded=BF, samples=60)
def tellus(ctx):
    import calendar, datetime
    n, mon, v, yr, mo = drawn(ctx)
    rows = []; jpl = ctx.choice('jpl', [True, True, False]); t = []
    def dec(x): return x.year + (x.timetuple().tm_yday - 1) / (366.0 if calendar.isleap(x.year) else 365.0)
    for i in range(n):
        first = datetime.date(int(yr[i]), int(mo[i]) + 1, 1); days = calendar.monthrange(first.year, first.month)[1]
        a, b = ctx.int('start%d' % i, -17, 5), ctx.int('end%d' % i, -5, 17)
        if abs(a + b) > 16: a, b = 0, 0                   # the middle of the period stays in the month
        s, e = first + datetime.timedelta(days=a), first + datetime.timedelta(days=days - 1 + b)
        if jpl: t.append((dec(s) + dec(e)) / 2)
        else: t.append(yr[i] + (first.timetuple().tm_yday - 1 + days / 2.0) / (366.0 if calendar.isleap(first.year) else 365.0))
        head = 'GRCOF2' if jpl else '%04d%02d' % (first.year, first.month)
        d = ' %s.0000 %s.0000' % (s.strftime('%Y%m%d'), e.strftime('%Y%m%d')) if jpl else ''
        rows.append(head + ' 1 0 %.8e %.8e %.8e %.8e' % (v['z'][i], 0, v['ez'][i], 0) + d)
        rows.append(head + ' 1 1 %.8e %.8e %.8e %.8e' % (v['x'][i], v['y'][i], v['ex'][i], v['ey'][i]) + d)
    g = geocenter().from_tellus(put(ctx, 'tl.txt', ['header', 'end of header' if jpl else "format '(a6,2i5,4e)'"[7:]] + rows), JPL=jpl)
    ctx.eq(g.month, mon, 'month', tol=0)
    ctx.eq(g.time, np.array(t), 'middle of the period' if jpl else 'middle of the month', tol=1e-11)
    for c, k in (('C10', 'z'), ('C11', 'x'), ('S11', 'y')):
        ctx.eq(getattr(g, c), v[k], c, tol=1e-7); ctx.eq(getattr(g, 'e' + c), v['e' + k], 'error of ' + c, tol=1e-7)

@contract('netCDF4 files are read to their variables', GC + 'from_netCDF4', symbolic=False, bounded=BF, samples=15)
def netcdf(ctx):
    import netCDF4, os, gzip
    n, mon, v, yr, mo = drawn(ctx)
    p = os.path.join(ctx.tmpdir(), 'g.nc'); group = ctx.choice('group', [None, 'monthly']); comp = ctx.choice('compression', [None, 'gzip'])
    f = netCDF4.Dataset(p, 'w'); h = f.createGroup(group) if group else f
    h.createDimension('time', n)
    for k, a in dict(time=yr + (mo + 0.5) / 12, month=mon, C10=v['z'], C11=v['x'], S11=v['y'], X=v['ex']).items():
        h.createVariable(k, 'i8' if k == 'month' else 'f8', ('time',))[:] = a
    f.close()
    if comp:
        with gzip.open(p + '.gz', 'wb') as z: z.write(open(p, 'rb').read())
        p += '.gz'
    g = geocenter().from_netCDF4(p, group=group, compression=comp)
    ctx.eq(g.month, mon, 'month', tol=0); ctx.eq(g.X, v['ex'], 'X', tol=0)
    for c, k in (('C10', 'z'), ('C11', 'x'), ('S11', 'y')): ctx.eq(getattr(g, c), v[k], c, tol=0)

@contract('satellite laser ranging files are read in mm with the dealiasing average removed', [GC + 'from_SLR', GC + 'from_AOD1B', GC + 'from_cartesian'], symbolic=False, bounded=BF, samples=15)
def slr(ctx):
    import os
    n, mon, v, yr, mo = drawn(ctx)
    rad = ctx.choice('radius', [None, 6.4e9]); aod = ctx.choice('aod', [False, True])
    t = yr + (mo + 0.5) / 12
    cols = ['time', 'X', 'Y', 'Z', 'X_sigma', 'Y_sigma', 'Z_sigma']
    d = ctx.tmpdir(); os.makedirs(os.path.join(d, 'slr')); os.makedirs(os.path.join(d, 'AOD1B', 'RL06', 'geocenter'))
    rows = ['%.6f ' % t[i] + ' '.join('%.8f' % v[k][i] for k in ('x', 'y', 'z', 'ex', 'ey', 'ez')) for i in range(n)]
    p = put(ctx, os.path.join('slr', 'gc.txt'), ['header'] + rows)
    for i in range(n):
        put(ctx, os.path.join('AOD1B', 'RL06', 'geocenter', 'AOD1B_RL06 glo_%4.0f_%02.0f.txt' % (yr[i], mo[i] + 1)),
            ['# c'] + ['%d-%02d-%02dT00:00:00 %.6f %.6f %.6f' % (yr[i], mo[i] + 1, dd, 1.5 * dd + i, -0.5 * dd, 2.0 * dd - i) for dd in (1, 2, 3)])
    g = geocenter() if rad is None else geocenter(radius=rad)
    R = g.radius * np.sqrt(3.0)
    g.from_SLR(p, AOD=aod, columns=cols, header=1, release='RL06')
    ctx.eq(g.month, mon, 'month', tol=0); ctx.eq(g.time, t, 'time', tol=1e-6)
    off = dict(C11=3.0 + np.arange(n), S11=-1.0 + np.zeros(n), C10=4.0 - np.arange(n))
    for c, k in (('C10', 'z'), ('C11', 'x'), ('S11', 'y')):
        w, e = np.array([float('%.8f' % q) for q in v[k]]), np.array([float('%.8f' % q) for q in v['e' + k]])
        ctx.eq(getattr(g, c) * R, w - (off[c] if aod else 0), c, tol=1e-12); ctx.eq(getattr(g, 'e' + c) * R, e, 'error of ' + c, tol=1e-12)
