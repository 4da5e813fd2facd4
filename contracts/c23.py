import gzip, io, os, pathlib, sys
import numpy as np
from dv.ctx import contract
from contracts.common import day_number
from gravity_toolkit.read_GRACE_harmonics import read_GRACE_harmonics
from gravity_toolkit.read_SLR_harmonics import read_SLR_harmonics, convert_weekly
from gravity_toolkit.read_GIA_model import read_GIA_model, gia
from gravity_toolkit.read_gfc_harmonics import read_gfc_harmonics
from gravity_toolkit.harmonics import harmonics
from gravity_toolkit.time import calendar_to_grace, adjust_months, convert_calendar_decimal
R = 'gravity_toolkit.read_'

def leap(y): return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0
def ydays(y): return 366 if leap(y) else 365

class Listing:
    """coefficients and errors of a file: the value listed at a degree and order, as it is printed there"""
    def __init__(self, ctx, name, L, M, spec='.13E', low=0, errors=True, power=True, keep=None):
        self.ctx, self.L, self.M, self.spec = ctx, L, M, spec
        self.p = 10.0 ** ctx.choice(name + ' power', [-3, -12, 2]) if power and not ctx.symbolic else 1
        self.v = {k: ctx.arr(name + '_' + k, (L + 1, M + 1), sprinkle=(0.0,)) for k in (('c', 's', 'ec', 'es') if errors else ('c', 's'))}
        pairs = [(l, m) for l in range(low, L + 1) for m in range(min(l, M) + 1)]
        self.pairs = [q for q in pairs if keep is None or keep(*q)]
        if not ctx.symbolic:
            if ctx.choice(name + ' complete', [True, False]): self.pairs = [q for q in self.pairs if ctx.rng.random() < 0.7]
            if ctx.choice(name + ' order', [True, False]): ctx.rng.shuffle(self.pairs)
    def text(self, k, l, m):
        return self.ctx.text(self.v[k][l, m] * self.p, self.spec)
    def value(self, k, l, m):
        """what the file says"""
        return self.v[k][l, m] * self.p if self.ctx.symbolic else float(self.text(k, l, m))
    def has(self, l, m): return (l, m) in set(self.pairs)
    def get(self, k, l, m, default=0.0):
        return self.value(k, l, m) if self.has(l, m) else default

def same(ctx, A, want, L, M, label):
    """every coefficient up to the truncation"""
    ctx.shape(A, (L + 1, M + 1), label + ': shape')
    for l in range(L + 1):
        for m in range(M + 1): ctx.eq(A[l, m], want(l, m), '%s at degree %d and order %d' % (label, l, m), tol=1e-14, scale=0)

def emit(ctx, name, lines, how, end='\n', first=True):
    """the file, plain or compressed, on disk or in memory"""
    p = pathlib.Path(ctx.tmpdir()) / name
    b = (end.join(lines) + end).encode('ISO-8859-1')
    if name.endswith('.gz'): b = gzip.compress(b)
    if how == 'memory':
        f = io.BytesIO(b); f.filename = name
        return f
    with open(p, 'wb') as f: f.write(b)
    return str(p) if how == 'text' else p

def period(ctx):
    y = ctx.choice('year', [2003, 2004, 2007, 2009, 2019, 2020] if not ctx.symbolic else [2004, 2011])
    if ctx.symbolic: return (y, 61, y, 91) if y == 2004 else (y, 350, y + 1, 14)
    n = ydays(y); d = ctx.choice('day', [1, 15, 61, 120, 335, 350, n])
    e = d + ctx.choice('days', [0, 27, 30, 45])
    return (y, d, y, e) if e <= n else (y, d, y + 1, e - n)

def middle(y, d, y2, d2): return y + 0.5 * (d + (y2 - y) * ydays(y) + d2) / ydays(y)
def julian(ctx, y, d): return day_number(ctx, y, 1, 1) + d - 1 + 1721424.5

def pole(ctx, t, PRC):
    """the correction of degree two, order one (Wahr et al. 2015): IERS mean pole and its conventional line"""
    dt = t - 2000
    f = ctx.lit
    if PRC in ('UTCSR', 'JPLEM', 'JPLMSC'):
        early = ['0.055974', '0.0018243', '0.00018413', '0.000007024'], ['-0.346346', '-0.0017896', '0.00010729', '0.000000908']
        late = ['0.023513', '0.0076141', '0', '0'], ['-0.358891', '0.0006287', '0', '0']
        def mean(a): return f(a[0]) + f(a[1]) * dt + f(a[2]) * dt * dt + f(a[3]) * dt * dt * dt
        a, b = early if t < 2010 else late
        m1 = mean(a) - f('0.00062') * dt; m2 = mean(b) + f('0.00348') * dt
    elif PRC in ('EIGEN', 'GFZOP'): m1 = -f('0.00062') * dt; m2 = f('0.00348') * dt
    else: return 0.0, 0.0
    return -f('1.551e-9') * m1 - f('0.012e-9') * m2, f('0.021e-9') * m1 - f('1.505e-9') * m2

def level2(ctx):
    """a level-2 file in one of the conventions, and what it holds"""
    y, d, y2, d2 = period(ctx)
    DSET = ctx.choice('product', ['GSM', 'GSM', 'GAC', 'GAD'] if not ctx.symbolic else ['GSM', 'GAC'])
    kind = ctx.choice('convention', [('%s-2_%s_0030_UTCSR_0060_0004', 'UTCSR', 4), ('%s-2_%s_0030_EIGEN_G---_0004', 'EIGEN', 4), ('%s-2_%s_0031_JPLEM_0001_0005', 'JPLEM', 5), ('%s-2_%s_GRAC_GFZOP_BA01_0600', 'GFZOP', 6),
        ('%s-2_%s_GRFO_UTCSR_BA01_0600', 'UTCSR', 6), ('%s-2_%s_GRAC_COSTG_BF01_0100', 'COSTG', 100), ('%s-2_%s_0031_GRGS_VAR1_0005', 'GRGS', 5), ('%s-2_%s_GRAC_JPLEM_BA01_0602_x', 'JPLEM', 6), ('kfilter_DDK3_%s-2_%s_GRAC_GFZOP_BA01_0600', 'GFZOP', 6), ('X_%s-2_%s_GRAC_JPLMSC_MSC1_0600', 'JPLMSC', 6)])
    pattern, PRC, DREL = kind
    if pattern.startswith('X'): DSET_ = 'GSM'
    elif pattern.startswith('k'): DSET_ = 'GSM'
    else: DSET_ = DSET
    sfx = ctx.choice('suffix', ['', '.gz', '.gfc', '.txt'] if not ctx.symbolic else ['.gz'])
    flag = 'gfc' if (PRC == 'COSTG' or sfx == '.gfc' or pattern.startswith('k')) and not pattern.startswith('X') else 'GRCOF2'
    how = ctx.choice('file', ['path', 'text', 'memory'] if not ctx.symbolic else ['path'])
    L = ctx.choice('degrees', [2, 3, 6, 9] if not ctx.symbolic else [3]); M = ctx.choice('orders', [L, L, 1] if not ctx.symbolic else [L])
    lmax = ctx.choice('lmax', [2, 3, 5, 10] if not ctx.symbolic else [2, 4]); mmax = ctx.choice('mmax', [None, None, 1, 2] if not ctx.symbolic else [None, 1])
    F = Listing(ctx, 'f', L, M)
    drift = Listing(ctx, 'drift', L, M, errors=False) if DREL == 4 and ctx.choice('drift', [True, False]) else None
    if drift is not None: drift.pairs = [q for q in drift.pairs if q[0] in (2, 3)]
    name = pattern % (DSET, '%04d%03d-%04d%03d' % (y, d, y2, d2)) + sfx
    modern = ('GRAC' in pattern and DREL >= 6) or 'GRFO' in pattern
    head = {'header': {'dimensions': {'degree': str(L), 'order': str(M)}, 'global_attributes': {'title': 'coefficients "of" a month: ' + DSET}}} if modern else ['FIRST GEOID    %d' % L, 'EARTH 3.98E14 6378136.3', 'SHM    %d' % L]
    if sfx == '.gfc': lines = ['product_type gravity_field', 'modelname  ' + name, 'earth_gravity_constant  0.3986004415E+15', 'radius  0.63781363E+07', 'max_degree  %d' % L, 'errors  formal', 'norm   fully_normalized', 'tide_system  zero_tide', 'key  L  M  C  S', 'end_of_head ====']
    elif modern: lines = ['header:', '  dimensions:', '    degree              : %d' % L, '    order               : %d' % M, '  global_attributes:', '    title               : %s' % "'coefficients \"of\" a month: %s'" % DSET]
    else: lines = list(head)
    if modern: lines.append('# End of YAML header')
    n = ctx.choice('tail', [False, True]) if not ctx.symbolic else False
    rows = []
    for l, m in F.pairs:
        rows.append('%s %4d %4d %s %s %s %s 20030101.0000 20030131.0000 yynn' % ((flag, l, m) + tuple(F.text(k, l, m) for k in ('c', 's', 'ec', 'es'))))
    extra = []
    if drift is not None: extra = ['GRDOTA %4d %4d %s %s 0.00E+00 0.00E+00 20030101.0000' % (l, m, drift.text('c', l, m), drift.text('s', l, m)) for l, m in drift.pairs]
    lines += rows + extra if not n else extra + rows
    return dict(name=name, lines=lines, how=how, F=F, drift=drift, L=lmax, M=lmax if mmax is None else mmax, mmax=mmax, DSET=DSET_, PRC=PRC, DREL=DREL, dates=(y, d, y2, d2), modern=modern, sfx=sfx, head=head)

def conforms(ctx, x, q, PT):
    F, L, M, drift = q['F'], q['L'], q['M'], q['drift']
    t = middle(*q['dates'])
    C, S = (0.0, 0.0) if not PT or q['DSET'] != 'GSM' else pole(ctx, t, q['PRC'])
    dt = t - ctx.lit('2003.3') if drift is not None and q['DREL'] == 4 and q['DSET'] == 'GSM' else 0
    def clm(l, m): return F.get('c', l, m, 1.0 if l == 0 == m else 0.0) + (dt * drift.get('c', l, m) if drift is not None else 0) - (C if (l, m) == (2, 1) else 0)
    def slm(l, m): return F.get('s', l, m) + (dt * drift.get('s', l, m) if drift is not None else 0) - (S if (l, m) == (2, 1) else 0)
    same(ctx, x['clm'], clm, L, M, 'cosine'); same(ctx, x['slm'], slm, L, M, 'sine')
    same(ctx, x['eclm'], lambda l, m: F.get('ec', l, m), L, M, 'cosine error'); same(ctx, x['eslm'], lambda l, m: F.get('es', l, m), L, M, 'sine error')
    ctx.check(list(x['l']) == list(range(L + 1)) and list(x['m']) == list(range(M + 1)), 'degrees and orders')
    ctx.eq(x['time'], t, 'middle of the period', tol=1e-13)
    y, d, y2, d2 = q['dates']
    ctx.eq(x['start'], julian(ctx, y, d), 'start of the period', tol=1e-14); ctx.eq(x['end'], julian(ctx, y2, d2), 'end of the period', tol=1e-14)

@contract('level-2 files are read to the coefficients, errors and dates they hold', [R + 'GRACE_harmonics.' + k for k in ('read_GRACE_harmonics', 'parse_file', 'extract_file')], bounded='the values are arbitrary; names, degrees and conventions are listed or drawn', samples=200, budget=200)
def level2_files(ctx):
    q = level2(ctx)
    f = emit(ctx, q['name'], q['lines'], q['how'])
    PT = ctx.choice('pole tide', [False, True])
    if PT: ctx.assume(q['L'] >= 2 and q['M'] >= 1)
    x = read_GRACE_harmonics(f, q['L'], **({} if q['mmax'] is None else {'MMAX': q['mmax']}), **({'POLE_TIDE': True} if PT else {}))
    conforms(ctx, x, q, PT)
    if q['sfx'] == '.gfc': ctx.check(x['header'] is not None and float(x['header']['radius']) == 6378136.3 and x['header']['modelname'].strip() == q['name'] and x['header']['tide_system'].strip() == 'zero_tide' and 'product_type' not in x['header'], 'header of a model file')
    elif q['modern']: ctx.check(x['header']['dimensions'] == q['head']['header']['dimensions'], 'header of a file')
    else: ctx.check(x['header'] == q['head'], 'header lines of a file')

@contract('harmonics are read from level-2 files', ['gravity_toolkit.harmonics.harmonics.from_SHM', 'gravity_toolkit.harmonics.harmonics.from_file'], symbolic=False, bounded='drawn files', samples=80)
def objects(ctx):
    q = level2(ctx)
    ctx.assume(q['how'] == 'path')
    f = emit(ctx, q['name'], q['lines'], q['how'])
    h = harmonics(lmax=q['L'], mmax=q['M']); kw = {} if q['mmax'] is None else {'MMAX': q['mmax']}
    x = h.from_file(f, format='SHM', **kw) if ctx.choice('via', [True, False]) else h.from_SHM(f, **kw)
    conforms(ctx, dict(clm=x.clm, slm=x.slm, eclm=read_GRACE_harmonics(f, q['L'], **kw)['eclm'], eslm=read_GRACE_harmonics(f, q['L'], **kw)['eslm'], l=range(q['L'] + 1), m=range(q['M'] + 1), time=x.time, start=julian(ctx, *q['dates'][:2]), end=julian(ctx, *q['dates'][2:])), q, False)
    ctx.check(int(x.lmax) == q['L'] and int(x.mmax) == q['M'], 'degree and order')
    y, d = q['dates'][:2]
    ctx.check(x.month == int(calendar_to_grace(middle(*q['dates']))), 'month of the middle of the period')

def csr(ctx, F, dates, A, scale):
    lines = ['GEODETIC SLR SERIES', 'mean field below', '=' * 80] + ['%3d %3d %s %s %s %s' % ((l, m) + tuple(F.text(k, l, m).replace('E', 'D') for k in ('c', 's', 'ec', 'es'))) for l, m in F.pairs]
    lines += ['some more', 'end of header']
    for i, (y, mon, a, b) in enumerate(dates):
        lines.append('%4d  x  %d %d %d %.2f %.2f' % (i + 1, i, y, mon, a, b))
        for l, m in F.pairs: lines.append('%3d %3d %s %s 9.9 9.9 %s %s' % ((l, m) + tuple(A[i].text(k, l, m) for k in ('c', 's', 'ec', 'es'))))
    return lines

@contract('monthly satellite laser ranging fields are the mean field and its anomalies', [R + 'SLR_harmonics.read_SLR_harmonics', R + 'SLR_harmonics.read_CSR_monthly_6x1'], bounded='two epochs (drawn: to six) of the 19 coefficients of the file', samples=40, budget=150)
def monthly(ctx):
    n = ctx.choice('n', [2] if ctx.symbolic else [1, 2, 6])
    keep = lambda l, m: l < 6 or m == 1
    F = Listing(ctx, 'mean', 6, 6, low=2, keep=keep)
    if not ctx.symbolic: F.pairs = [(l, m) for l in range(2, 7) for m in range(l + 1) if keep(l, m)]
    A = []
    for i in range(n):
        a = Listing(ctx, 'a%d' % i, 6, 6, low=2, keep=keep, power=False); a.pairs = F.pairs; A.append(a)
    dates = [(2005 + (i + 10) // 12, (i + 10) % 12 + 1, 53000.0 + 30 * i, 53030.5 + 30 * i) for i in range(n)]
    s = ctx.choice('scale', [None, 1.0, 2.5e-9] if not ctx.symbolic else [None, 2])
    p = pathlib.Path(ctx.tmpdir()) / ctx.choice('name', ['CSR_Monthly_5x5_Gravity_Harmonics.txt', 'csr_monthly_5x5_gravity_harmonics_v2.txt'])
    with open(p, 'w') as f: f.write('\n'.join(csr(ctx, F, dates, A, s)) + '\n')
    decimal = convert_calendar_decimal
    if ctx.symbolic:        # the contract of the callee (C01): some date of the year and month
        decimal = lambda y, m: ctx.uf('decimal', int(y), int(m))
        ctx.callee('gravity_toolkit.time', 'convert_calendar_decimal', lambda y, m: ctx.table((1,), lambda i: decimal(y, m)))
    x = read_SLR_harmonics(str(p) if ctx.choice('path as text', [False, True]) else p, **({} if s is None else {'SCALE': s}))
    k = ctx.lit('1e-10') if s is None else s
    for i in range(n):
        def at(l, m, key): return A[i].get(key, l, m) * k
        same(ctx, x['clm'][:, :, i], lambda l, m: F.get('c', l, m) + at(l, m, 'c'), 6, 6, 'cosine'); same(ctx, x['slm'][:, :, i], lambda l, m: F.get('s', l, m) + at(l, m, 's'), 6, 6, 'sine')
        same(ctx, x['error']['clm'][:, :, i], lambda l, m: np.sqrt(at(l, m, 'ec') ** 2 + F.get('ec', l, m) ** 2), 6, 6, 'cosine error'); same(ctx, x['error']['slm'][:, :, i], lambda l, m: np.sqrt(at(l, m, 'es') ** 2 + F.get('es', l, m) ** 2), 6, 6, 'sine error')
        ctx.eq(x['MJD'][i], (dates[i][2] + dates[i][3]) / 2, 'middle of the arc', tol=1e-14)
        ctx.eq(x['time'][i], decimal(dates[i][0], dates[i][1]), 'middle of the month', tol=1e-14)
    ctx.shape(x['clm'], (7, 7, n)); ctx.shape(x['time'], (n,))

@contract('weekly satellite laser ranging fields are read as listed', [R + 'SLR_harmonics.read_SLR_harmonics', R + 'SLR_harmonics.read_GSFC_weekly_6x1'], bounded='two epochs (drawn: to six) of the 19 coefficients of the file', samples=40, budget=100)
def weekly(ctx):
    n = ctx.choice('n', [2] if ctx.symbolic else [1, 2, 6])
    keep = lambda l, m: l < 6 or m == 1
    A = []
    for i in range(n):
        a = Listing(ctx, 'a%d' % i, 6, 6, low=2, keep=keep, errors=False); a.pairs = [(l, m) for l in range(2, 7) for m in range(l + 1) if keep(l, m)]; A.append(a)
    T = ctx.arr('time', (n,), draw=(1993.0, 2022.0)); J = ctx.arr('MJD', (n,), draw=(49000.0, 59000.0))
    lines = ['Title: series', 'Product: weekly coefficients']
    for i in range(n):
        lines.append('%s %s' % (ctx.text(J[i], '.4f'), ctx.text(T[i], '.6f')))
        lines += ['%3d %3d %s %s' % (l, m, A[i].text('c', l, m), A[i].text('s', l, m)) for l, m in A[i].pairs]
    s = ctx.choice('scale', [None, 2])
    p = pathlib.Path(ctx.tmpdir()) / 'gsfc_slr_5x5c61s61.txt'
    with open(p, 'w') as f: f.write('\n'.join(lines) + '\n')
    x = read_SLR_harmonics(p, **({} if s is None else {'SCALE': s}))
    k = 1 if s is None else s
    for i in range(n):
        same(ctx, x['clm'][:, :, i], lambda l, m: A[i].get('c', l, m) * k, 6, 6, 'cosine'); same(ctx, x['slm'][:, :, i], lambda l, m: A[i].get('s', l, m) * k, 6, 6, 'sine')
        ctx.eq(x['MJD'][i], J[i], 'day', tol=2e-8); ctx.eq(x['time'][i], T[i], 'date', tol=2e-9)

@contract('weekly values are averaged over the days nearest to each date', R + 'SLR_harmonics.convert_weekly', symbolic=False, bounded='drawn series and dates', samples=100)
def nearest(ctx):
    n = ctx.int('n', 12, 60); k = ctx.choice('neighbours', [None, 28, 14, 7])
    T = 2003.0 + 7.0 / 365.25 * np.arange(n); d = ctx.arr('d', (n,))
    T0, d0 = T.copy(), d.copy()
    D = np.array(sorted(ctx.rng.uniform(2003.05, T[-1] - 0.05) for _ in range(ctx.int('dates', 1, 6))))
    x = convert_weekly(T, d, DATE=D, **({} if k is None else {'NEIGHBORS': k}))
    k = k or 28
    for i, t in enumerate(D):
        days = [(abs(T[j] + (r - 3.5) / 365.25 - t), T[j] + (r - 3.5) / 365.25, d[j]) for j in range(n) for r in range(7)]
        days.sort(key=lambda v: v[0])
        ctx.assume(abs(days[k - 1][0] - days[k][0]) > 1e-9)
        ctx.eq(x['data'][i], sum(v[2] for v in days[:k]) / k, 'mean of the nearest days', tol=1e-9); ctx.eq(x['time'][i], sum(v[1] for v in days[:k]) / k, 'mean of their dates', tol=1e-12)
    ctx.check(np.array_equal(np.atleast_1d(x['month']), np.atleast_1d(adjust_months(calendar_to_grace(x['time'])))), 'months of the dates')
    ctx.check(np.array_equal(T, T0) and np.array_equal(d, d0), 'inputs unchanged')
    dates = [(2005 + (i + 10) // 12, (i + 10) % 12 + 1) for i in range(2)]
    ctx.raises((Exception,), lambda: read_SLR_harmonics(pathlib.Path(ctx.tmpdir()) / 'CSR_Monthly_5x5_Gravity_Harmonics.txt'), 'missing files are refused')
    ctx.raises((Exception,), lambda: read_SLR_harmonics(pathlib.Path(ctx.tmpdir()) / 'other.txt'), 'other series are refused')

class Model:
    """stands in for geoid_toolkit, whose reader gives the coefficients of an ICGEM file"""
    def __init__(self, d): self.d = d; self.calls = []
    def read_ICGEM_harmonics(self, f, **kw):
        self.calls.append((pathlib.Path(f), kw)); return dict(self.d)

@contract('gravity model files are dated by their names', [R + 'gfc_harmonics.read_gfc_harmonics', 'gravity_toolkit.harmonics.harmonics.from_gfc', 'gravity_toolkit.harmonics.harmonics.from_file'], symbolic=False, bounded='drawn names; the coefficients are those of geoid_toolkit, which is not installed', samples=150)
def models(ctx):
    y = ctx.choice('year', [2002, 2004, 2008, 2015, 2019, 2020, 2100]); m = ctx.int('month', 1, 12)
    kind = ctx.choice('kind', ['ITSG-Grace2018_n96_%d-%02d.gfc', 'model_dealiasing_n180_%d-%02d.gfc', 'AOD1B_RL06_atmosphere_%d-%02d.gfc', 'ITSG-Grace_operational_n60_%d-%02d.gfc', 'swarm', 'background'])
    n = [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    a, b = (y, m, 1, 0, 0, 0), (y, m, n[m - 1], 23, 59, 59)
    zp = ctx.choice('zip', [False, True])
    if kind == 'swarm':
        d1 = ctx.int('first', 1, 15); hour = ctx.int('hour', 0, 23); minute = ctx.int('minute', 0, 59)
        a = (y, m, d1, hour, minute, 7)
        name = 'SW_OPER_EGF_SHA_2__%04d%02d%02dT%02d%02d%02d_%04d%02d%02dT%02d%02d%02d_0101.%s' % (a + b + ('ZIP' if zp else 'gfc',))
    elif kind == 'background': name = '%s_Swarm_%02d_%02d_%04d.%s' % (ctx.choice('GAx', ['GAA', 'GAB', 'GAC', 'GAD']), 90, m, y, 'ZIP' if zp else 'gfc')
    else: name = kind % (y, m); zp = False
    p = pathlib.Path(ctx.tmpdir()) / name
    with open(p, 'w') as f: f.write('x')
    L = 3
    d = dict(clm=ctx.arr('c', (L + 1, L + 1)), slm=ctx.arr('s', (L + 1, L + 1)), max_degree=str(L), earth_gravity_constant='3.986e14', radius='6378136.3', tide_system='tide_free', modelname='x')
    import importlib
    tide = ctx.choice('tide', [None, 'tide_free', 'zero_tide'])
    via = ctx.choice('via', ['reader', 'object', 'file', 'undated'])
    def doy(v): return sum(n[:v[1] - 1]) + v[2] + v[3] / 24.0 + v[4] / 1440.0 + v[5] / 86400.0
    t = y + 0.5 * (doy(a) + doy(b)) / ydays(y)
    mods = [sys.modules['gravity_toolkit.read_gfc_harmonics'], sys.modules['gravity_toolkit.harmonics']]
    old = [k.geoidtk for k in mods]; M = Model(d)
    try:
        for k in mods: k.geoidtk = M
        if via == 'reader':
            x = read_gfc_harmonics(str(p) if ctx.choice('text', [False, True]) else p, TIDE=tide, FLAG='gfct' if zp else 'gfc')
            for k, v in d.items(): ctx.check(x[k] is v, 'the model is that of the file')
            ctx.eq(x['time'], t, 'middle of the period', tol=1e-13)
            for v, w, s in ((a, x['start'], 'start'), (b, x['end'], 'end')): ctx.eq(w, day_number(ctx, *v[:3]) + 1721424.5 + v[3] / 24.0 + v[4] / 1440.0 + v[5] / 86400.0, s + ' of the period', tol=1e-13)
            ctx.check(M.calls[0][1]['FLAG'] == ('gfct' if zp else 'gfc'), 'line flag')
        else:
            h = harmonics()
            dated = via != 'undated'
            x = h.from_file(p, format='gfc', tide=tide, **({'date': True} if dated else {})) if via == 'file' and False else h.from_gfc(p, tide=tide, **({'date': True} if dated else {}))
            ctx.eq(x.clm, d['clm'], 'cosine', tol=0); ctx.eq(x.slm, d['slm'], 'sine', tol=0)
            ctx.check(int(x.lmax) == L and int(x.mmax) == L, 'degree and order')
            ctx.check(float(x.GM) == 3.986e14 and float(x.R) == 6378136.3 and x.tide == 'tide_free', 'parameters of the model')
            if dated:
                ctx.eq(x.time, t, 'middle of the period', tol=1e-13)
                ctx.check(int(x.month) == 12 * (y - 2002) + m, 'month of the period')
            else: ctx.check(x.time is None and x.month is None, 'no date')
        ctx.check(len(M.calls) == 1 and M.calls[0][0] == p and M.calls[0][1]['TIDE'] == tide, 'the file is read once in the tide system asked for')
        if via == 'reader': ctx.check(bool(M.calls[0][1]['ZIP']) == zp, 'compression')
    finally:
        for k, v in zip(mods, old): k.geoidtk = v

G = R + 'GIA_model.'
DEFAULT = {'IJ05-R2': 120, 'ICE6G': 60, 'W12a': 120, 'SM09': 120, 'Wu10': 60, 'Caron': 89, 'ICE6G-D': 256, 'AW13-ICE6G': 100, 'AW13-IJ05': 256, 'ascii': 60, 'netCDF4': 60, 'HDF5': 60}
NAMES = {'IJ05-R2': [('Stokes.R2_65_.2_1.5_L120', 'IJ05_R2_65_.2_1.5'), ('Stokes.R2_115_.4_20_L120', 'IJ05_R2_115_.4_20')], 'ICE6G': [('Stokes_G_Rot_60_I6_A_VM5a', 'ICE6G_VM5a'), ('Stokes_G_Rot_60_I6_A_v1.2', 'ICE6G_v1.2')],
    'W12a': [('grate_B.clm', 'W12a_Best'), ('grate_L.clm', 'W12a_Lower'), ('grate_U.clm', 'W12a_Upper')], 'SM09': [('grate_120p520.clm', 'SM09_Huy2_120_.5_20'), ('grate_96p15.clm', 'SM09_Huy2_96_.1_5')], 'Wu10': [('translation_mean_and_cov.txt', 'Wu_2010')],
    'Caron': [('GIA_maps_Caron_et_al_2018.txt', 'Caron_expt')], 'ICE6G-D': [('ICE-6G_High_Res_Stokes_trend.txt', 'ICE6G-D_High_Res'), ('Stokes_trend_D15.txt', 'ICE6G-D_D15')],
    'AW13-ICE6G': [('stokes.ice6g.VM5.txt', 'AW13_ice6g_VM5'), ('stokes.ice6g_compr', 'AW13_ice6g_compr')], 'AW13-IJ05': [('stokes.R2_65_.2_1.5_ANT', 'AW13_IJ05_R2_65_.2_1.5'), ('stokes.R2_115_.4_20', 'AW13_IJ05_R2_115_.4_20')], 'ascii': [('grates.txt', 'grates')]}

def gia_lines(ctx, kind, F):
    """a model of degrees F.L in the layout of its authors"""
    row = lambda l, m: '%4d %4d %s %s' % (l, m, F.text('c', l, m), F.text('s', l, m))
    if kind in ('IJ05-R2', 'W12a', 'SM09', 'AW13-ICE6G', 'AW13-IJ05'): return ['', 'degree order'] + [row(l, m).replace('E', 'D' if kind == 'IJ05-R2' else 'E') for l, m in F.pairs]
    if kind == 'ICE6G':
        out = []
        for l in range(F.L + 1):
            for m in range(0, l + 1, 2):
                v = ['%d' % l] if m == 0 else []
                for k in (m, m + 1):
                    if k <= l: v += [F.text('c', l, k), F.text('s', l, k)]
                out.append('  '.join(v))
        return out
    if kind == 'Wu10':
        out = ['mm/yr']
        for l in range(1, F.L + 1):
            for m in range(l + 1): out += [F.text('c', l, m)] + ([F.text('s', l, m)] if m else [])
        return out
    if kind == 'Caron':
        out = ['a', 'b', 'c', 'l m v']
        for l, m in F.pairs: out += ['%d %d %s' % (l, m, F.text('c', l, m))] + (['%d %d %s' % (l, -m, F.text('s', l, m))] if m else [])
        return out
    if kind == 'ICE6G-D':
        low = [(l, m) for l in range(3) for m in range(l + 1)]
        return ['model', 'GRACE Approximation for degrees 0 to 2'] + [row(l, m) for l, m in low] + ['Absolute Sea-level Values for degrees 0 to 2'] + ['%4d %4d 99.0 99.0' % q for q in low] + ['GRACE Approximation/Absolute Sea-level Values for degrees > 2'] + [row(l, m) for l, m in F.pairs if l > 2]

def model(ctx, kind):
    L = ctx.choice('degrees', [3, 4] if ctx.symbolic else [3, 6, 12])
    F = Listing(ctx, 'f', L, L, errors=False)
    if kind in ('ICE6G', 'Wu10', 'ICE6G-D'): F.pairs = [(l, m) for l in range(L + 1) for m in range(l + 1)]
    if kind == 'Wu10': F.pairs = [q for q in F.pairs if q[0]]
    return F

def gia_conforms(ctx, c, s, F, kind, L, M):
    k = ctx.lit('1e-11') if kind in ('IJ05-R2', 'ICE6G') else 1
    def f(key):
        def g(l, m):
            v = F.get(key, l, m)
            if key == 's' and m == 0 and kind in ('Wu10', 'Caron'): v = 0.0
            return v / ctx.lit('6.371e9') if kind == 'Wu10' else v * k
        return g
    same(ctx, c, f('c'), L, M, 'cosine'); same(ctx, s, f('s'), L, M, 'sine')

@contract('glacial isostatic adjustment models are read in the layout of their authors', [G + 'read_GIA_model', G + 'gia.from_GIA'], bounded='the values are arbitrary; nine layouts of the models, listed truncations, the names of the files are listed', samples=250, budget=200)
def adjustments(ctx):
    kind = ctx.choice('kind', ['IJ05-R2', 'ICE6G', 'W12a', 'SM09', 'Wu10', 'Caron', 'ICE6G-D', 'AW13-ICE6G', 'AW13-IJ05'])
    F = model(ctx, kind)
    name, title = ctx.choice('name', NAMES[kind] if not ctx.symbolic else NAMES[kind][:1])
    p = pathlib.Path(ctx.tmpdir()) / name
    with open(p, 'w') as f: f.write('\n'.join(gia_lines(ctx, kind, F)) + '\n')
    if kind in ('ICE6G', 'Wu10'): L = ctx.choice('lmax', [F.L, F.L - 1, 2])
    else: L = ctx.choice('lmax', [F.L, F.L - 1, F.L + 2, None] if not ctx.symbolic else [F.L, F.L - 1, F.L + 1])
    M = ctx.choice('mmax', [None, None, 0, 2] if not ctx.symbolic else [None, 2])
    via = ctx.choice('via', ['reader', 'text', 'object', 'object (MMAX)'] if not ctx.symbolic else ['reader', 'object'])
    Lx = DEFAULT[kind] if L is None else L
    Mx = Lx if M is None else M
    if via in ('reader', 'text'):
        x = read_GIA_model(str(p) if via == 'text' else p, GIA=kind, **({} if L is None else {'LMAX': L}), **({} if M is None else {'MMAX': M}))
        gia_conforms(ctx, x['clm'], x['slm'], F, kind, Lx, Mx)
        ctx.check(x['title'] == title, 'title of the model')
        ctx.check(list(x['l']) == list(range(Lx + 1)) and list(x['m']) == list(range(Mx + 1)), 'degrees and orders')
        ctx.check(isinstance(x['citation'], str) and isinstance(x['reference'], str) and x['url'].startswith('https://doi.org/'), 'reference of the model')
    else:
        x = gia(lmax=L).from_GIA(p, GIA=kind, **({} if M is None else {'MMAX' if via == 'object (MMAX)' else 'mmax': M}))
        gia_conforms(ctx, x.clm, x.slm, F, kind, Lx, Mx)
        ctx.check(x.title == title and int(x.lmax) == Lx and int(x.mmax) == Mx and isinstance(x.citation, str), 'title, degree and order of the model')

@contract('glacial isostatic adjustment models convert to and from files of harmonics', [G + 'read_GIA_model', G + 'gia.from_GIA'], symbolic=False, bounded='drawn models and formats', samples=80)
def converted(ctx):
    kind = ctx.choice('kind', ['IJ05-R2', 'ICE6G', 'W12a', 'Wu10', 'Caron', 'ICE6G-D', 'AW13-ICE6G'])
    F = model(ctx, kind)
    name, title = ctx.choice('name', NAMES[kind])
    d = pathlib.Path(ctx.tmpdir()); p = d / name
    with open(p, 'w') as f: f.write('\n'.join(gia_lines(ctx, kind, F)) + '\n')
    fmt = ctx.choice('format', ['ascii', 'netCDF4', 'HDF5'])
    M = ctx.choice('mmax', [None, 2]); L = F.L
    a = read_GIA_model(p, GIA=kind, LMAX=L, DATAFORM=fmt, MODE=0o640, **({} if M is None else {'MMAX': M}))
    out = d / ('stokes_%s_L%d.%s' % (title, L, {'ascii': 'txt', 'netCDF4': 'nc', 'HDF5': 'H5'}[fmt]))
    ctx.check(sorted(os.listdir(d)) == sorted([name, out.name]), 'one file is written, named by the model and degree')
    ctx.check(os.stat(out).st_mode & 0o777 == 0o640, 'permissions of the file')
    gia_conforms(ctx, a['clm'], a['slm'], F, kind, L, L if M is None else M)
    L2 = ctx.choice('lmax', [L, L - 1, 2]); M2 = ctx.choice('mmax2', [None, 1])
    b = read_GIA_model(out, GIA=fmt, LMAX=L2, **({} if M2 is None else {'MMAX': M2}))
    full = read_GIA_model(p, GIA=kind, LMAX=L)
    m2 = L2 if M2 is None else M2
    for k in ('clm', 'slm'):
        ctx.shape(b[k], (L2 + 1, m2 + 1), 'shape')
        w = full[k][:L2 + 1, :m2 + 1]
        ctx.check(bool(np.all(np.abs(b[k] - w) <= (5.1e-13 * np.abs(w) + 1e-300 if fmt == 'ascii' else 0))), 'the same model is read from the file')
    if fmt == 'ascii': ctx.check(b['title'] == out.stem and b['citation'] is None, 'title of a text file')
    else: ctx.check(b['title'] == title and b['reference'] == a['reference'], 'title and reference of a file')
    x = gia(lmax=L2).from_GIA(out, GIA=fmt)
    ctx.check(np.array_equal(x.clm[:, :m2 + 1], b['clm']) and np.array_equal(x.slm[:, :m2 + 1], b['slm']), 'as an object')
    ctx.raises((FileNotFoundError,), lambda: read_GIA_model(d / 'none.txt', GIA=kind), 'missing files are refused')
    z = read_GIA_model(None, LMAX=L2)
    ctx.check(np.array_equal(z['clm'], np.zeros((L2 + 1, L2 + 1))) and np.array_equal(z['slm'], np.zeros((L2 + 1, L2 + 1))), 'no model is zero')
