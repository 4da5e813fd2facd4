import datetime, gzip, io, os, pathlib, sys
import numpy as np
from dv.ctx import contract
from contracts.common import day_number
from contracts.c23 import Listing, emit, leap, ydays, middle, csr
import gravity_toolkit.SLR as SLR
from gravity_toolkit.grace_date import grace_date
from gravity_toolkit.grace_find_months import grace_find_months
from gravity_toolkit.grace_months_index import grace_months_index
from gravity_toolkit.grace_input_months import grace_input_months, read_ecmwf_corrections, regress_model
from gravity_toolkit.time import adjust_months, calendar_to_grace, parse_grace_file, parse_gfc_file, reduce_by_date, convert_calendar_decimal
S = 'gravity_toolkit.SLR.'

def put(ctx, name, lines):
    p = pathlib.Path(ctx.tmpdir()) / name
    os.makedirs(p.parent, exist_ok=True)
    with open(p, 'w') as f: f.write('\n'.join(lines) + '\n')
    return p

def ym(g): return 2002 + (g - 1) // 12, (g - 1) % 12 + 1
def mjd(ctx, y, m, d): return day_number(ctx, y, m, d) - 678576.0
def start(g):
    """decimal date of the first day of a month"""
    y, m = ym(g)
    return y + sum((31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[:m - 1]) / ydays(y)

def months(ctx, single=False):
    """months of a series, without the neighbours that share one (property C05)"""
    if ctx.symbolic: return [4, 36, 180] if not single else [180, 200]
    a = ctx.choice('first month', [4, 30, 150, 197]); n = ctx.int('n', 1, 12); gap = ctx.choice('step', [1, 2, 5])
    return [a + gap * i for i in range(n)]

class Series:
    """monthly values of a coefficient, as printed"""
    def __init__(self, ctx, name, g, k):
        self.ctx, self.g = ctx, g
        # the rows of some files start at a fraction of their first day
        self.day = [0.0] * len(g) if ctx.symbolic else [ctx.rng.choice([0.0, 0.0, 0.5, 0.25, 1.75]) for _ in g]
        self.v = ctx.arr(name, (len(g), k)); self.e = ctx.arr(name + '_sigma', (len(g), k), lo=0, draw=(0.0, 9.0))
    def text(self, i, j): return self.ctx.text(self.v[i, j] * (1 if self.ctx.symbolic else 1e-4), '.13E')
    def val(self, i, j): return self.v[i, j] if self.ctx.symbolic else float(self.text(i, j))
    def sigma(self, i, j): return self.ctx.text(self.e[i, j], '.4f')
    def err(self, i, j): return (self.e[i, j] if self.ctx.symbolic else float(self.sigma(i, j))) * self.ctx.lit('1e-10')

def rows(ctx, s, layout, aod=None):
    """the rows of a file: one line per month"""
    out = []
    for i, g in enumerate(s.g):
        y, m = ym(g)
        d = mjd(ctx, y, m, 1); t = start(g)
        if layout in ('TN', 'TN-07', 'C50'): d += s.day[i]
        if layout == 'TN': out.append('%.2f %.4f %s 1.5 %s %s 2.5 %s %.1f %.4f' % (d, t, s.text(i, 0), s.sigma(i, 0), s.text(i, 1), s.sigma(i, 1), d + 30, t + 0.08))
        elif layout == 'TN-07': out.append('%.2f %.4f %s 1.5 %s %.1f %.4f' % (d, t, s.text(i, 0), s.sigma(i, 0), d + 30, t + 0.08))
        elif layout == 'GFZ': out.append('%.1f %.4f %s 1.5 %s 4.0 5.0 6.0 %s' % (d, t, s.text(i, 0), s.sigma(i, 0), 'G*' if i % 2 else 'Gm'))
        elif layout == 'GravIS': out.append('%.1f %.4f %s 1.5 %s %s 2.5 %s %s 3.5 %s %s 4.5 %s' % (d, t, s.text(i, 0), s.sigma(i, 0), s.text(i, 1), s.sigma(i, 1), s.text(i, 2), s.sigma(i, 2), s.text(i, 3), s.sigma(i, 3)))
        elif layout == 'C50': out.append('%.2f %.4f %s 1.5 %s %s 2.5 %s 0.1 0.2 %s 3.5 %s %.1f' % (d, t, s.text(i, 0), s.sigma(i, 0), s.text(i, 1), s.sigma(i, 1), s.text(i, 2), s.sigma(i, 2), d + 30))
    return out

def conforms(ctx, x, s, j, data='data', error='error', exact=True):
    ctx.check([int(v) for v in x['month']] == s.g, 'months of the file')
    ctx.shape(x[data], (len(s.g),)); ctx.shape(x[error], (len(s.g),)); ctx.shape(x['time'], (len(s.g),))
    for i, g in enumerate(s.g):
        ctx.eq(x[data][i], s.val(i, j), 'value of a month', tol=1e-14); ctx.eq(x[error][i], s.err(i, j), 'error of a month', tol=1e-12)
        ctx.eq(x['time'][i], start(g) + s.day[i] / ydays(ym(g)[0]) if exact else float('%.4f' % start(g)), 'date of a month', tol=1e-13 if exact else 1e-15)

@contract('low-degree values are read from the rows of their files', [S + k for k in ('C20.C20', 'C30.C30', 'C50.C50', 'CS2.CS2')], bounded='the values are arbitrary; the months and layouts are listed or drawn', samples=150, budget=100)
def low_degrees(ctx):
    kind = ctx.choice('kind', ['C20 TN-14', 'C20 TN-11', 'C20 TN-07', 'C20 GFZ', 'C20 GravIS', 'C30 TN-14', 'C30 GravIS', 'C50 GSFC', 'CS2 GravIS'])
    g = months(ctx); s = Series(ctx, 'x', g, 4)
    head = ['TITLE: rows', 'Product: values'] if kind in ('C30 TN-14', 'C50 GSFC', 'C20 TN-14') else ['TITLE: rows', 'PRODUCT: values']
    if kind == 'C20 TN-14': x, j, e = SLR.C20(put(ctx, 'TN-14_C30_C20_GSFC_SLR.txt', head + rows(ctx, s, 'TN') + [''])), 0, True
    elif kind == 'C20 TN-11': x, j, e = SLR.C20(put(ctx, 'TN-11_C20_SLR.txt', head + rows(ctx, s, 'TN-07'))), 0, True
    elif kind == 'C20 TN-07': x, j, e = SLR.C20(put(ctx, 'TN-07_C20_SLR.txt', head + rows(ctx, s, 'TN-07'))), 0, True
    elif kind == 'C20 GFZ': x, j, e = SLR.C20(put(ctx, 'GFZ_RL06_C20_SLR.dat', head + ['no month 1.0 2.0'] + rows(ctx, s, 'GFZ'))), 0, False
    elif kind == 'C20 GravIS': x, j, e = SLR.C20(put(ctx, 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat', head + rows(ctx, s, 'GravIS'))), 0, False
    elif kind == 'C30 TN-14': x, j, e = SLR.C30(put(ctx, 'TN-14_C30_C20_GSFC_SLR.txt', head + rows(ctx, s, 'TN'))), 1, True
    elif kind == 'C30 GravIS': x, j, e = SLR.C30(put(ctx, 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat', head + rows(ctx, s, 'GravIS'))), 1, False
    elif kind == 'C50 GSFC': x, j, e = SLR.C50(put(ctx, 'GSFC_SLR_C20_C30_C50_GSM_replacement.txt', head + rows(ctx, s, 'C50'))), 2, True
    else:
        x = SLR.CS2(put(ctx, 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat', head + rows(ctx, s, 'GravIS')))
        conforms(ctx, x, s, 2, 'C2m', 'eC2m', False); conforms(ctx, x, s, 3, 'S2m', 'eS2m', False)
        return
    conforms(ctx, x, s, j, exact=e)

@contract('low-degree values are read from tables and fields', [S + k for k in ('C20.C20', 'C30.C30', 'C40.C40', 'C50.C50', 'CS2.CS2')], symbolic=False, bounded='drawn months and values', samples=150)
def low_tables(ctx):
    kind = ctx.choice('kind', ['C20 CSR', 'C20 repeated', 'CS2 CSR', 'CS2 tabulated', 'LARES', 'monthly', 'weekly'])
    g = months(ctx); ctx.assume(len(g) > 1); s = Series(ctx, 'x', g, 4); n = len(g)
    mid = [round(start(v) + 0.042, 4) for v in g]
    A = ctx.arr('aod', (n, 2), draw=(-9.0, 9.0))
    if kind == 'C20 CSR':
        aod = ctx.choice('AOD', [None, True, False])
        p = put(ctx, ctx.choice('name', ['C20_RL06.txt', 'c20_rl05.txt']), ['%.4f %s 0.1 %s %.4f 1.0 2.0' % (mid[i], s.text(i, 0), s.sigma(i, 0), A[i, 0]) for i in range(n)])
        x = SLR.C20(p, **({} if aod is None else {'AOD': aod}))
        for i in range(n):
            w = s.val(i, 0) - (0 if aod is False else float('%.4f' % A[i, 0]) * 1e-10)
            ctx.check(abs(x['data'][i] - w) <= 1e-16 + 1e-15 * abs(w), 'C20 without the dealiasing average')
            ctx.check(abs(x['error'][i] - s.err(i, 0)) <= 2e-7 * s.err(i, 0), 'error of C20')
            ctx.check(abs(x['time'][i] - mid[i]) < 1.3e-4, 'date')
        ctx.check([int(v) for v in x['month']] == g, 'months'); return
    if kind == 'C20 repeated':
        # a month given twice keeps the flagged solution
        twice = set(i for i in range(n) if ctx.rng.random() < 0.4)
        out = ['PRODUCT: values']; want = []
        for i, v in enumerate(g):
            y, m = ym(v); d = mjd(ctx, y, m, 1) + s.day[i]
            if i in twice:
                a = '%.2f %.4f %s 1.5 %s' % (d, start(v), s.text(i, 0), s.sigma(i, 0)) + ' %.1f *' % (d + 30)
                b = '%.2f %.4f %s 1.5 %s %.1f' % (d + 1, start(v), s.text(i, 1), s.sigma(i, 1), d + 30)
                out += [a, b] if ctx.rng.random() < 0.5 else [b, a]
            else: out.append('%.2f %.4f %s 1.5 %s %.1f%s' % (d, start(v), s.text(i, 0), s.sigma(i, 0), d + 30, ctx.rng.choice(['', '  *'])))
        conforms(ctx, SLR.C20(put(ctx, ctx.choice('name', ['TN-07_C20_SLR.txt', 'TN-05_C20_SLR.txt']), out)), s, 0); return
    if kind == 'CS2 CSR':
        p = put(ctx, ctx.choice('name', ['C21_S21_RL06.txt', 'C22_S22_RL05.txt']), ['%.4f %s %s %s %s %.4f %.4f 1.0 2.0' % (mid[i], s.text(i, 0), s.text(i, 1), s.sigma(i, 0), s.sigma(i, 1), A[i, 0], A[i, 1]) for i in range(n)])
        x = SLR.CS2(p)
        for i in range(n):
            for j, k in enumerate('CS'):
                w = s.val(i, j) - float('%.4f' % A[i, j]) * 1e-10
                ctx.check(abs(x[k + '2m'][i] - w) <= 1e-16 + 1e-15 * abs(w), k + ' without the dealiasing average'); ctx.check(abs(x['e' + k + '2m'][i] - s.err(i, j)) <= 2e-7 * s.err(i, j), 'error of ' + k)
        ctx.check([int(v) for v in x['month']] == g, 'months'); return
    if kind == 'LARES':
        f, k = ctx.choice('degree', [(SLR.C30, 'C30'), (SLR.C40, 'C40'), (SLR.C50, 'C50')])
        mean = ctx.choice('mean', [None, 4.5e-7])
        p = put(ctx, k + '_LARES_filtered.txt', ['header'] + ['%.4f %s 1.0' % (mid[i], s.text(i, 0)) for i in range(n)] + (['%.4f 1.0 1.0' % (mid[-1] + 1)] if n == 1 else []))
        x = f(p, **({} if mean is None else {k + '_MEAN': mean}))
        w0 = mean if mean is not None else 9.57173957733e-07 if k == 'C30' else 0.0
        for i in range(n): ctx.eq(x['data'][i], s.val(i, 0) * 1e-10 + w0, 'anomaly and mean', tol=1e-14); ctx.eq(x['error'][i], 0.0, 'no error'); ctx.eq(x['time'][i], mid[i], 'date', tol=1e-15)
        ctx.check([int(v) for v in x['month']][:n] == g, 'months'); return
    if kind == 'monthly':
        keep = [(l, m) for l in range(2, 7) for m in range(l + 1) if l < 6 or m == 1]
        F = Listing(ctx, 'mean', 6, 6, low=2); F.pairs = keep
        B = []
        for i in range(n):
            a = Listing(ctx, 'a%d' % i, 6, 6, low=2, power=False); a.pairs = keep; B.append(a)
        dates = [ym(v) + (mjd(ctx, *ym(v), 1) + 1.0, mjd(ctx, *ym(v), 1) + 29.0) for v in g]
        p = put(ctx, 'CSR_Monthly_5x5_Gravity_Harmonics.txt', csr(ctx, F, dates, B, None))
        f, l = ctx.choice('degree', [(SLR.C30, 3), (SLR.C40, 4), (SLR.C50, 5)])
        x = f(p)
        for i in range(n):
            ctx.eq(x['data'][i], F.get('c', l, 0) + B[i].get('c', l, 0) * 1e-10, 'value of the fields', tol=1e-14); ctx.eq(x['error'][i], np.hypot(F.get('ec', l, 0), B[i].get('ec', l, 0) * 1e-10), 'error of the fields', tol=1e-13)
            ctx.eq(x['time'][i], convert_calendar_decimal(*dates[i][:2])[0], 'date', tol=1e-15)
        ctx.check([int(v) for v in x['month']] == g, 'months'); return
    # weekly values at the dates asked for: the mean of the 28 nearest days
    T = np.round(2003.0 + 7.0 / 365.25 * np.arange(40), 6)
    V = ctx.arr('week', (40, 5, 2))
    n = min(n, 6); at = np.array([2003 + (i + 1 + ctx.rng.uniform(0.3, 0.7)) / 12 for i in range(n)])
    k = ctx.choice('coefficient', [(4, 0), (5, 0), (2, 1), (2, 2)] if kind == 'weekly' else [(2, 1), (2, 2)])
    if kind == 'CS2 tabulated': T = T.astype('f')
    days = [(T[j] + (r - 3.5) / 365.25, j) for j in range(40) for r in range(7)]
    near = []
    for t in at:
        order = sorted(days, key=lambda v: abs(v[0] - t))
        ctx.assume(abs(abs(order[27][0] - t) - abs(order[28][0] - t)) > (1e-9 if kind == 'weekly' else 3e-4))
        near.append([v[1] for v in order[:28]])
    def mean(i, c): return sum(float('%.9E' % V[j, c, 0 if k[1] < 9 else 0]) for j in near[i]) / 28
    def sine(i, c): return sum(float('%.9E' % V[j, c, 1]) for j in near[i]) / 28
    if kind == 'weekly':
        out = ['Product: weekly']
        for j in range(40):
            out.append('50000.0 %.6f' % T[j])
            for l in range(2, 7):
                for m in range(l + 1):
                    if l < 6 or m == 1:
                        c = {(4, 0): 0, (5, 0): 1, (2, 1): 2, (2, 2): 3}.get((l, m), 4)
                        out.append('%d %d %.9E %.9E' % (l, m, V[j, c, 0], V[j, c, 1]))
        p = put(ctx, 'gsfc_slr_5x5c61s61.txt', out)
        c = {(4, 0): 0, (5, 0): 1, (2, 1): 2, (2, 2): 3}[k]
        x = SLR.C40(p, DATE=at) if k == (4, 0) else SLR.C50(p, DATE=at) if k == (5, 0) else SLR.CS2(p, DATE=at, ORDER=k[1])
    else:
        p = put(ctx, 'GSFC_C2%d_S2%d.txt' % (k[1], k[1]), ['%.6f %.9E %.9E' % (T[j], V[j, 2, 0], V[j, 2, 1]) for j in range(40)]); c = 2
        x = SLR.CS2(p, DATE=at)
    for i in range(n):
        if 'data' in x: ctx.eq(x['data'][i], mean(i, c), 'mean of the nearest days', tol=1e-10); ctx.eq(x['error'][i], 0.0, 'no error', tol=0)
        else: ctx.eq(x['C2m'][i], mean(i, c), 'mean of the nearest days', tol=1e-10); ctx.eq(x['S2m'][i], sine(i, c), 'mean of the nearest days (sine)', tol=1e-10)
    ctx.check(np.array_equal(np.atleast_1d(x['month']), adjust_months(calendar_to_grace(x['time']))), 'months of the dates')

class Patched:
    """callees given by their contracts, in the real modules as well"""
    def __init__(self, ctx, d):
        self.ctx, self.d = ctx, d
        if ctx.symbolic:
            for (m, k), v in d.items(): ctx.callee(m, k, v)
    def __enter__(self):
        if not self.ctx.symbolic:
            self.old = [(sys.modules[m], k, getattr(sys.modules[m], k)) for m, k in self.d]
            for (m, k), v in self.d.items(): setattr(sys.modules[m], k, v)
    def __exit__(self, *a):
        if not self.ctx.symbolic:
            for m, k, v in self.old: setattr(m, k, v)

GI = 'gravity_toolkit.grace_input_months'
GRAVIS = 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat'
FILE = {('C20', 'CSR'): {'RL04': 'TN-05_C20_SLR.txt', 'RL05': 'TN-07_C20_SLR.txt', 'RL06': 'C20_RL06.txt'}, ('C20', 'GFZ'): 'GFZ_%s_C20_SLR.dat', ('C20', 'GSFC'): 'TN-14_C30_C20_GSFC_SLR.txt',
    ('21', 'CSR'): 'C21_S21_%s.txt', ('21', 'GFZ'): GRAVIS, ('21', 'GSFC'): 'gsfc_slr_5x5c61s61.txt', ('22', 'CSR'): 'C22_S22_%s.txt', ('22', 'GSFC'): 'gsfc_slr_5x5c61s61.txt',
    ('C30', 'CSR'): 'CSR_Monthly_5x5_Gravity_Harmonics.txt', ('C30', 'LARES'): 'C30_LARES_filtered.txt', ('C30', 'GFZ'): GRAVIS, ('C30', 'GSFC'): 'TN-14_C30_C20_GSFC_SLR.txt',
    ('C40', 'CSR'): 'CSR_Monthly_5x5_Gravity_Harmonics.txt', ('C40', 'LARES'): 'C40_LARES_filtered.txt', ('C40', 'GSFC'): 'gsfc_slr_5x5c61s61.txt', ('C50', 'CSR'): 'CSR_Monthly_5x5_Gravity_Harmonics.txt', ('C50', 'LARES'): 'C50_LARES_filtered.txt', ('C50', 'GSFC'): 'gsfc_slr_5x5c61s61.txt'}
AT = {'C20': (2, 0), '21': (2, 1), '22': (2, 2), 'C30': (3, 0), 'C40': (4, 0), 'C50': (5, 0)}
DEG = {'Tellus': 'from_tellus', 'SLR': 'from_SLR', 'SLF': 'from_UCI', 'UCI': 'from_UCI', 'Swenson': 'from_swenson', 'GFZ': 'from_gravis'}

class Geo:
    """stands in for a geocenter (property C13): a series read by the named reader"""
    def __init__(self, **kw): self.made = kw
    def _read(self, how, f, **kw):
        Geo.log.append((how, f, kw, self.made)); Geo.made = self
        self.month, self.time, self.C10, self.C11, self.S11 = Geo.series
        return self
    def from_tellus(self, f, **kw): return self._read('from_tellus', f, **kw)
    def from_SLR(self, f, **kw): return self._read('from_SLR', f, **kw)
    def from_UCI(self, f, **kw): return self._read('from_UCI', f, **kw)
    def from_swenson(self, f, **kw): return self._read('from_swenson', f, **kw)
    def from_gravis(self, f, **kw): return self._read('from_gravis', f, **kw)

def sources(ctx):
    """the replacements asked for: coefficient -> source"""
    if ctx.symbolic: return ctx.choice('sources', [{}, {'C20': 'CSR'}, {'C20': 'GSFC', 'C30': 'GSFC'}, {'C20': 'GFZ', '21': 'GFZ', 'C30': 'GFZ'}, {'C20': 'GSFC', '21': 'CSR', '22': 'CSR', 'C30': 'CSR', 'C40': 'CSR', 'C50': 'CSR'}, {'21': 'GSFC', '22': 'GSFC', 'C40': 'GSFC', 'C50': 'GSFC'}, {'C30': 'LARES', 'C40': 'LARES', 'C50': 'LARES'}])
    d = {}
    for k, o in (('C20', ['CSR', 'GFZ', 'GSFC']), ('21', ['CSR', 'GFZ', 'GSFC']), ('22', ['CSR', 'GSFC']), ('C30', ['CSR', 'GFZ', 'GSFC', 'LARES']), ('C40', ['CSR', 'GSFC', 'LARES']), ('C50', ['CSR', 'GSFC', 'LARES'])):
        v = ctx.choice('source ' + k, [None] + o)
        if v: d[k] = v
    return d

@contract('input months hold their files and the corrections asked for', [GI + '.grace_input_months'], bounded='the values are arbitrary; readers enter by their contracts (C13, C23, this property); listed months and options, degrees up to 6', samples=250, budget=250)
def assembled(ctx):
    L = ctx.choice('degree', [5, 6, 6, 8] if not ctx.symbolic else [5]); M = ctx.choice('mmax', [None, None, 3] if not ctx.symbolic else [None])
    ctx.assume(M is None or M >= 2)
    Mx = L if M is None else M
    PROC = ctx.choice('centre', ['CSR', 'GFZ', 'JPL', 'GRAZ', 'Swarm'] if not ctx.symbolic else ['JPL'])
    DREL = ctx.choice('release', ['RL06', 'RL05', 'RL04'] if not ctx.symbolic else ['RL06'])
    DSET = ctx.choice('product', ['GSM', 'GSM', 'GAC', 'GAA', 'GAD'] if not ctx.symbolic else ['GSM', 'GAC'])
    if ctx.symbolic: a, b, missing, have = 175, 180, [178, 200], [174, 175, 176, 177, 179, 180, 181]
    else:
        a = ctx.choice('start', [4, 100, 170, 174, 198]); b = a + ctx.choice('length', [0, 0] + list(range(1, 10)))
        missing = sorted(set(ctx.rng.sample(range(a - 3, b + 4), ctx.int('missing', 0, 4))))
        have = sorted(set(range(a - 2, b + 3)) - set(missing))
    want = [g for g in range(a, b + 1) if g not in missing]
    ctx.assume(len(want) > 0)
    n = len(want)
    base = pathlib.Path(ctx.tmpdir()); d = base / PROC / DREL / DSET
    os.makedirs(d, exist_ok=True)
    X = {k: ctx.arr(k, (len(have), L + 1, Mx + 1)) for k in ('clm', 'slm', 'eclm', 'eslm')}
    T = ctx.arr('t', (len(have),), draw=(2003.0, 2020.0))
    files = {g: d / ('GSM-2_%03d.gz' % g) for g in have}
    back = {str(v): i for i, v in enumerate(files[g] for g in have)}
    PT = ctx.choice('pole tide', [False, True] if not ctx.symbolic else [False]); ATM = ctx.choice('atm', [False, False, True] if not ctx.symbolic else [False, True])
    log = []
    def made(i): return dict([(k, X[k][i, :, :] if ctx.symbolic else X[k][i].copy()) for k in X] + [('time', T[i])])
    def level2(f, lmax, **kw):
        log.append((str(f), lmax, kw)); return made(back[str(f)])
    def gfc(f, **kw):
        log.append((str(f), L, kw))
        z = made(back[str(f)])
        if ctx.symbolic: return z
        return {k: (np.pad(v, ((0, 2), (0, L + 2 - Mx))) if np.ndim(v) == 2 else v) for k, v in z.items()}
    dates = []
    def dated(base_dir, PROC='', DREL='', DSET='', OUTPUT=True, MODE=None):
        dates.append((base_dir, PROC, DREL, DSET, OUTPUT)); return dict(files)
    # replacement series: more months than asked for
    src = sources(ctx)
    gm = sorted(set(range(a - 1, b + 2)) - (set() if ctx.symbolic else set([ctx.choice('dropped', [a - 1, a - 1, b + 1, want[0]])])))
    if not ctx.symbolic and n == 1 and ctx.choice('one replacement', [False, True]): gm = list(want)
    V = ctx.arr('low', (len(gm), 6, 4)); slot = {k: i for i, k in enumerate(AT)}
    reads = []
    def low(key):
        def f(p, *q, **kw):
            reads.append((key, pathlib.Path(p), q, kw)); i = slot[key]
            if key in ('21', '22'): return dict(month=np.array(gm), C2m=V[:, i, 0], eC2m=V[:, i, 1], S2m=V[:, i, 2], eS2m=V[:, i, 3])
            return dict(month=np.array(gm), data=V[:, i, 0], error=V[:, i, 1])
        return f
    def cs2(p, **kw):
        name = pathlib.Path(p).name
        return low('22' if kw.get('ORDER') == 2 or 'C22' in name else '21')(p, **kw)
    DEG1 = ctx.choice('geocenter', ['', 'Tellus', 'SLR', 'SLF', 'UCI', 'Swenson', 'GFZ'] if not ctx.symbolic else ['', 'Tellus', 'SLR'])
    regress = ctx.choice('model', [False, True]) if DEG1 else False
    G = ctx.arr('geo', (3, b - a + 3)); GT = ctx.arr('geotime', (b - a + 3,))
    gd = list(range(a - 1, b + 2)); drop = (want[-1] if ctx.symbolic else ctx.choice('no geocenter', [None, want[0], want[-1]])) if regress else None
    keep = [i for i, g in enumerate(gd) if g != drop]
    Geo.log = []; Geo.series = (np.array([gd[i] for i in keep]), GT[keep], G[0, keep], G[1, keep], G[2, keep])
    Q = ctx.arr('modelled', (3, n)); models = []
    def regress_(t_in, d_in, t_out, **kw):
        models.append((t_in, d_in, t_out, kw)); return Q[len(models) - 1, :]
    W = ctx.arr('atmosphere', (2, L + 1, Mx + 1, n)); atms = []
    def ecmwf(base_dir, lmax, mon, MMAX=None):
        atms.append((base_dir, lmax, list(mon), MMAX)); return dict(clm=W[0], slm=W[1], files=['x', 'y'])
    patch = {(GI, 'read_GRACE_harmonics'): level2, (GI, 'read_gfc_harmonics'): gfc, (GI, 'grace_date'): dated, (GI, 'regress_model'): regress_, (GI, 'read_ecmwf_corrections'): ecmwf, ('gravity_toolkit', 'geocenter'): Geo,
        ('gravity_toolkit.SLR', 'C20'): low('C20'), ('gravity_toolkit.SLR', 'CS2'): cs2, ('gravity_toolkit.SLR', 'C30'): low('C30'), ('gravity_toolkit.SLR', 'C40'): low('C40'), ('gravity_toolkit.SLR', 'C50'): low('C50')}
    own = ctx.choice('own geocenter file', [None, None, 'path', 'text']) if DEG1 not in ('', 'SLR') and not ctx.symbolic else None
    opt = {} if M is None else {'MMAX': M}
    for k in src:
        if k != 'C20': opt['SLR_' + k] = src[k]
    if PT: opt['POLE_TIDE'] = True
    if ATM: opt['ATM'] = True
    if regress: opt['MODEL_DEG1'] = True
    mine = base / 'mine.txt'
    if own: opt['DEG1_FILE'] = mine if own == 'path' else str(mine)
    def run():
        with Patched(ctx, patch): return grace_input_months(base if ctx.symbolic or ctx.rng.random() < 0.5 else str(base), PROC, DREL, DSET, L, a, b, missing, src.get('C20', ''), DEG1, **opt)
    gone = sorted(set(want) - set(gm))
    refused = [k for k in src if [g for g in gone if k == 'C20' or g > 176]]
    if refused: ctx.raises((IOError,), run, 'months without a replacement are refused'); return
    x = run()
    ctx.check([int(v) for v in x['month']] == want, 'the months asked for that are not missing, in order')
    ctx.check([v[0] for v in log] == [str(files[g]) for g in want], 'each month is read once, from its own file')
    if PROC in ('GRAZ', 'Swarm'): ctx.check(all(v[2] == {'TIDE': 'tide_free'} for v in log), 'models are read in the tide-free system')
    else: ctx.check(all(v[1] == L and v[2].get('MMAX', L) == Mx and v[2].get('POLE_TIDE', False) == PT for v in log), 'files are read to the truncation, with the pole tide asked for')
    ctx.check(len(dates) == 1 and pathlib.Path(dates[0][0]) == base and dates[0][1:4] == (PROC, DREL, DSET) and not dates[0][4], 'the index of the product is read')
    ctx.check(list(x['l']) == list(range(L + 1)) and list(x['m']) == list(range(Mx + 1)), 'degrees and orders')
    for k in X: ctx.shape(x[k], (L + 1, Mx + 1, n))
    sign = {'GSM': -1, 'GAC': 1, 'GAA': 1}.get(DSET, 0) if ATM else 0
    for j, g in enumerate(want):
        i = have.index(g); q = gm.index(g) if g in gm else None
        ctx.eq(x['time'][j], T[i], 'date of the file', tol=0)
        new = {}
        for k in src:
            if k != 'C20' and g <= 176: continue
            l, m = AT[k]; v = [V[q, slot[k], c] for c in range(4)]
            new['clm', l, m] = v[0]; new['eclm', l, m] = v[1]
            if k in ('21', '22'): new['slm', l, m] = v[2]; new['eslm', l, m] = v[3]
        if DEG1:
            geo = [Q[c, j] if g == drop else G[c, gd.index(g)] for c in range(3)]
            new['clm', 1, 0], new['clm', 1, 1], new['slm', 1, 1] = geo
        for k in X:
            for l in range(L + 1):
                for m in range(Mx + 1):
                    v = new[k, l, m] if (k, l, m) in new else X[k][i, l, m]
                    if sign and k in ('clm', 'slm') and m <= l: v = v + sign * W[0 if k == 'clm' else 1][l, m, j]
                    ctx.eq(x[k][l, m, j], v, '%s at degree %d and order %d of a month' % (k, l, m), tol=1e-13)
    # where the corrections come from
    for k in src:
        f = FILE[k, src[k]]
        if isinstance(f, dict): f = f[DREL]
        if '%s' in f: f = f % DREL
        r = [v for v in reads if v[0] == k]
        ctx.check(len(r) == 1 and r[0][1] == base / f, 'file of the values of ' + k)
        if f.startswith('gsfc'):
            z = r[0][3]['DATE']
            for j, g in enumerate(want): ctx.eq(z[j], T[have.index(g)], 'weekly values at the dates of the files', tol=0)
            if k in ('21', '22'): ctx.check(r[0][3].get('ORDER', 1) == int(k[1]), 'order of the weekly values')
    ctx.check(len(reads) == len(src), 'only the values asked for are read')
    if DEG1:
        how, f, kw, made_ = Geo.log[0]
        std = {'Tellus': 'deg1_coef_%s.txt' % DREL if DREL != 'RL06' else 'TN-13_GEOC_%s_%s.txt' % (PROC, DREL), 'SLR': 'gct2est.220_5s', 'SLF': '%s_%s_MPIOM_SLF_iter.txt' % (PROC, DREL), 'UCI': '%s_%s_MPIOM_SLF_iter.txt' % (PROC, DREL), 'Swenson': 'gad_gsm.%s.txt' % DREL, 'GFZ': 'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat'}[DEG1]
        ctx.check(len(Geo.log) == 1 and how == DEG[DEG1] and pathlib.Path(f) == (mine if own else base / 'geocenter' / std), 'file of the geocenter')
        if DEG1 == 'Tellus': ctx.check(kw.get('JPL') == (DREL == 'RL06'), 'layout of the geocenter file')
        if DEG1 == 'SLR': ctx.check(kw.get('AOD') is True and kw.get('release') == DREL and made_.get('radius') == 6.378136e9, 'geocenter without the dealiasing average')
        if regress:
            ctx.check(len(models) == 3, 'geocenter coefficients are modelled')
            for c, (t_in, d_in, t_out, kw) in enumerate(models):
                ctx.check(kw == {'ORDER': 2, 'CYCLES': [0.5, 1.0], 'RELATIVE': 2003.3} or ctx.symbolic and kw['ORDER'] == 2, 'terms of the model')
                for e, i in enumerate(keep): ctx.eq(t_in[e], GT[i], 'dates of the model', tol=0); ctx.eq(d_in[e], G[c, i], 'values of the model', tol=0)
                for j, g in enumerate(want): ctx.eq(t_out[j], T[have.index(g)], 'dates of the files', tol=0)
    else: ctx.check(not Geo.log, 'no geocenter is read')
    ctx.check(len(atms) == (1 if ATM else 0), 'atmospheric corrections are read if asked for')
    if ATM: ctx.check(atms[0][1:] == (L, want, Mx) or (atms[0][1:3] == (L, want) and int(atms[0][3]) == Mx), 'atmospheric corrections of the months')
    flags = ''.join('_w%s_%s' % (src[k], k) for k in AT if k in src)
    if DEG1: flags += '_w%s_DEG1' % DEG1
    ctx.check(x['title'] == flags + ('_wATM' if ATM else '') + ('_wPT' if PT else ''), 'title names the corrections')
    ctx.check(x['directory'] == d, 'directory')
    ctx.check(x['attributes']['lineage'][:n] == [files[g].stem for g in want], 'files of the series')

# index of a product: names and dates of its files
def calmonth(y, m): return ydays(y) and (31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]
def doy(y, m, d): return sum(calmonth(y, k) for k in range(1, m)) + d
def since(y): return sum(ydays(v) for v in range(2002, y))
def back(y, d):
    """year, month of a day number of the year (may run over the end)"""
    while d > ydays(y): d -= ydays(y); y += 1
    m = 1
    while d > calmonth(y, m): d -= calmonth(y, m); m += 1
    return y, m

class Entry:
    """a file of a product: name, first and last day (year, day of the year)"""
    def __init__(self, ctx, proc, drel, dset, g, version=0, dates=None):
        y, m = ym(g); self.g = g
        ctx.entries = k = getattr(ctx, 'entries', 0) + 1
        pick = lambda name, opts: ctx.choice('%s of file %d' % (name, k), opts)
        if dates: self.sy, self.sd, self.ey, self.ed = dates
        else:
            f, l = (pick('first', [1, 1, 3, 8]), pick('last', [28, 25, calmonth(y, m)]))
            self.sy, self.sd, self.ey, self.ed = y, doy(y, m, f), y, doy(y, m, l)
        span = '%04d%03d-%04d%03d' % (self.sy, self.sd, self.ey, self.ed)
        self.fraction = 0.0
        v = version
        if proc == 'GRAZ':
            self.sd, self.ed = doy(y, m, 1), doy(y, m, calmonth(y, m)); self.fraction = 86399 / 86400
            self.name = {'GSM': 'ITSG-%s_n%d_%04d-%02d.gfc' % (pick('itsg', ['Grace2018', 'Grace2016', 'Grace2014', 'Grace_operational']), pick('degree of the field', [60, 96, 120]), y, m), 'GAC': 'model_dealiasing_%04d-%02d.gfc' % (y, m), 'GAA': 'model_atmosphere_%04d-%02d.gfc' % (y, m), 'GAB': 'model_ocean_n180_%04d-%02d.gfc' % (y, m), 'GAD': 'model_oceanBottomPressure_%04d-%02d.gfc' % (y, m)}[dset]
        elif proc == 'Swarm':
            self.sd, self.ed = doy(y, m, 1), doy(y, m, calmonth(y, m)); self.fraction = 86399 / 86400
            self.name = 'SW_OPER_EGF_SHA_2__%04d%02d01T000000_%04d%02d%02dT235959_0101%s' % (y, m, y, m, calmonth(y, m), pick('suffix', ['.gfc', '.ZIP'])) if dset == 'GSM' else '%s_Swarm_40_%02d_%04d.gfc' % (dset, m, y)
        elif proc == 'CNES': self.name = '%s-2_%s_%04d_GRGS_%s_%02d%02d.txt' % (dset, span, self.ed - self.sd + 1, pick('field', ['0050', 'VER4']), 1, v)
        else:
            who = {'CSR': 'UTCSR', 'GFZ': 'GFZOP', 'JPL': 'JPLEM', 'COSTG': 'COSTG'}[proc]
            if drel == 'RL05': self.name = '%s-2_%s_%04d_%s_0060_00%02d%s' % (dset, span, self.ed - self.sd + 1, 'EIGEN' if who == 'GFZOP' else who, v, '.gz')
            else: self.name = '%s-2_%s_%s_%s_%s_06%02d%s' % (dset, span, pick('mission', ['GRAC', 'GRFO']), who, pick('field', ['BA01', 'BB01', 'BC01']), v, pick('suffix', ['.gz', '', '.gfc']))
    @property
    def end(self): return self.ed + self.fraction + sum(ydays(v) for v in range(self.sy, self.ey))
    @property
    def mid(self): return 0.5 * (self.sd + self.end)
    @property
    def month(self): y, m = back(self.sy, int(self.mid)); return 12 * (y - 2002) + m
    @property
    def date(self): return self.sy + self.mid / ydays(self.sy)

def product(ctx, proc=None):
    proc = proc or ctx.choice('centre', ['CSR', 'GFZ', 'JPL', 'COSTG', 'GRAZ', 'Swarm', 'CNES'])
    drel = ctx.choice('release', ['RL06', 'RL05']) if proc not in ('CNES',) else ctx.choice('release', ['RL01', 'RL02', 'RL03'])
    dset = ctx.choice('product', ['GSM', 'GSM', 'GAC', 'GAA', 'GAB', 'GAD'])
    n = ctx.int('files', 1, 14)
    if proc == 'CNES' and drel != 'RL03':
        # ten days each
        y, d = ctx.choice('first day', [(2002, 210), (2002, 355), (2003, 360), (2004, 100)]); out = []; k = 0
        for i in range(n):
            a = d + 10 * k - 1; b = a + 9
            split = lambda v: next((yy, v - sum(ydays(q) for q in range(y, yy)) + 1) for yy in range(y, y + 9) if v < sum(ydays(q) for q in range(y, yy + 1)))
            out.append(Entry(ctx, proc, drel, dset, i + 1, dates=split(a) + split(b))); out[-1].number = k + 1
            k += ctx.choice('step %d' % i, [1, 1, 1, 2, 4])
        return proc, drel, dset, out
    g = ctx.choice('first month', [4, 23, 36, 95, 150, 190]); out = []
    for i in range(n):
        out.append(Entry(ctx, proc, drel, dset, g)); out[-1].number = g
        g += ctx.choice('step %d' % i, [1, 1, 1, 2, 7])
    if proc in ('CSR', 'GFZ') and drel == 'RL06' and ctx.choice('special months', [False, True]):
        # November 2011 is centred in October
        out = [Entry(ctx, proc, drel, dset, v) for v in (116, 117)] + [Entry(ctx, proc, drel, dset, 118, dates=(2011, 274, 2011, 303)), Entry(ctx, proc, drel, dset, 119, dates=(2011, 289, 2011, 318))] + [Entry(ctx, proc, drel, dset, v) for v in (120, 121, 122)]
        for v in out: v.number = v.g
    return proc, drel, dset, out

def installed(ctx, base, proc, drel, dset, files):
    d = pathlib.Path(base) / proc / drel / dset
    os.makedirs(d, exist_ok=True)
    with open(d / 'index.txt', 'w') as f: f.write('\n'.join(v.name for v in files) + ctx.choice('last newline of ' + proc, ['\n', '']))
    return d

G_ = 'gravity_toolkit.'

@contract('months and dates of a product are those its files name', [G_ + 'grace_date.grace_date', G_ + 'grace_find_months.grace_find_months', G_ + 'time.parse_grace_file', G_ + 'time.parse_gfc_file'], symbolic=False, bounded='drawn products of up to 14 files', samples=250)
def product_dates(ctx):
    proc, drel, dset, files = product(ctx)
    base = pathlib.Path(ctx.tmpdir()); d = installed(ctx, base, proc, drel, dset, files)
    dates = d / ('%s_%s_DATES.txt' % (proc, drel))
    if ctx.choice('written', [True, False]):
        x = grace_date(ctx.choice('base', [base, str(base)]), PROC=proc, DREL=drel, DSET=dset, OUTPUT=False)
        ctx.check(not dates.exists(), 'nothing is written unless asked for')
        ctx.check([int(k) for k in x] == [v.number for v in files], 'months of the files, in order')
        ctx.check([x[v.number] for v in files] == [d / v.name for v in files], 'each month is the file that names its dates')
        x = grace_date(str(base), PROC=proc, DREL=drel, DSET=dset, OUTPUT=True)
        ctx.check([x[v.number] for v in files] == [d / v.name for v in files], 'each month is the file that names its dates')
    x = grace_find_months(ctx.choice('base again', [base, str(base)]), proc, drel, DSET=dset)
    lines = dates.read_text().splitlines()
    ctx.check(len(lines) == 1 + len(files), 'a line for each file')
    for v, l in zip(files, lines[1:]):
        q = l.split()
        ctx.check(abs(float(q[0]) - v.date) < 6e-9, 'mid-date of the file'); ctx.check(int(q[1]) == v.number, 'month of the file')
        ctx.check((int(q[2]), int(q[4])) == (v.sy, v.ey), 'first and last years')
        if not v.fraction: ctx.check((int(q[3]), int(q[5])) == (v.sd, v.ed), 'first and last days')
        ctx.check(abs(float(q[6]) - (since(v.sy) + v.mid)) <= 0.5 + 1e-9, 'days since 2002')
    g = [v.number for v in files]
    ctx.check([int(v) for v in x['months']] == g, 'months available'); ctx.check((int(x['start']), int(x['end'])) == (min(g), max(g)), 'first and last month')
    ctx.shape(x['time'], (len(files),))
    for i, v in enumerate(files): ctx.check(abs(x['time'][i] - v.date) < 1.3e-4, 'date of a month')
    ctx.check([int(v) for v in x['missing']] == [v for v in range(1 if proc == 'CNES' and drel != 'RL03' else 4, max(g)) if v not in g], 'months missing')

@contract('dates are those named by files of a product', [G_ + 'time.parse_grace_file', G_ + 'time.parse_gfc_file', G_ + 'time.reduce_by_date'], symbolic=False, bounded='drawn products of up to 14 files', samples=250)
def names(ctx):
    proc, drel, dset, files = product(ctx)
    lead = ctx.choice('directory', ['', '/data/GRACE/', 'a-2_b/'])
    for v in files:
        how = ctx.choice('how ' + v.name, [str, pathlib.Path])
        if proc in ('GRAZ', 'Swarm'):
            a, b = parse_gfc_file(how(lead + v.name), proc, dset)
            y, m = ym(v.g)
            ctx.check([int(q) for q in a] == [y, m, 1, 0, 0, 0] and [int(q) for q in b] == [y, m, calmonth(y, m), 23, 59, 59], 'first and last instants named')
        else:
            a, b = parse_grace_file(how(lead + v.name))
            ctx.check([int(q) for q in a + b] == [v.sy, v.sd, v.ey, v.ed], 'first and last days named')
    if proc in ('GRAZ', 'Swarm', 'CNES'): return
    # the newest version of each period
    pool = []
    for v in files:
        for k in ctx.rng.sample([0, 1, 2, 3, 11], ctx.rng.randint(1, 3)):
            pool.append((v.sy, v.sd, k, lead + Entry(ctx, proc, drel, dset, v.g, version=k, dates=(v.sy, v.sd, v.ey, v.ed)).name))
    want = {}
    for q in pool: want[q[:2]] = max(want.get(q[:2], q), q)
    ctx.rng.shuffle(pool)
    x = reduce_by_date([q[3] for q in pool])
    ctx.check(x == [want[k][3] for k in sorted(want)], 'newest version of each period, in order')

@contract('the table of months lists the days of each product', [G_ + 'grace_months_index.grace_months_index'], symbolic=False, bounded='drawn products', samples=120)
def month_table(ctx):
    base = pathlib.Path(ctx.tmpdir()); have = {}
    rel = ctx.choice('releases', [None, ['RL06'], ['RL05', 'RL06']])
    for proc in ('CSR', 'GFZ', 'JPL'):
        if ctx.choice('product of ' + proc, [True, True, False]):
            drel = ctx.choice('release of ' + proc, ['RL06', 'RL05']); n = ctx.int('files of ' + proc, 1, 8); g = ctx.choice('first month of ' + proc, [4, 5, 30]); files = []
            for i in range(n):
                y, m = ym(g); files.append(Entry(ctx, proc, drel, 'GSM', g, dates=(y, doy(y, m, 1 + i % 4), y, doy(y, m, 28 - i % 3)))); g += 1 + (i * n) % 3
            installed(ctx, base, proc, drel, 'GSM', files)
            grace_date(base, PROC=proc, DREL=drel, DSET='GSM'); have[proc, drel] = files
    grace_months_index(ctx.choice('base', [base, str(base)]), **({} if rel is None else {'DREL': rel}))
    lines = (base / 'GRACE_months.txt').read_text().splitlines()
    use = sorted('%s_%s' % k for k in have if k[1] in (rel or ['RL06']))
    ctx.check(lines[0].split() == ['MONTH'] + use, 'products of the table')
    last = max([v.g for k in have for v in have[k] if '%s_%s' % k in use] + [3])
    ctx.check(len(lines) == last - 2, 'a line for each month')
    for g, l in zip(range(4, last + 1), lines[1:]):
        y, m = ym(g)
        ctx.check(l[:11].replace(' ', '') == '%03d%s%d' % (g, ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec')[m - 1], y), 'month of the line')
        import re
        cells = re.findall(r'\d{4}_\d{3}--\d{4}_\d{3}|\*\* missing \*\*', l)
        want = []
        for u in use:
            f = [v for v in have[tuple(u.split('_'))] if v.g == g]
            want.append('%04d_%03d--%04d_%03d' % (f[0].sy, f[0].sd, f[0].ey, f[0].ed) if f else '** missing **')
        ctx.check(cells == want, 'days of each product')

@contract('atmospheric corrections are those of the period of each month', [GI + '.read_ecmwf_corrections'], bounded='the values are arbitrary; listed months, degrees up to 6', samples=120)
def atmosphere(ctx):
    L = ctx.choice('degree', [4, 6] if not ctx.symbolic else [3]); M = ctx.choice('mmax', [None, 2]); Mx = L if M is None else M
    K = ctx.choice('degree of the files', [L, L + 2] if not ctx.symbolic else [4])
    base = pathlib.Path(ctx.tmpdir()); F = {}
    for k, f in (('GAE', 'TN-08_GAE-2_2006032-2010031_0000_EIGEN_G---_0005.gz'), ('GAF', 'TN-09_GAF-2_2010032-2015131_0000_EIGEN_G---_0005.gz'), ('GAG', 'TN-10_GAG-2_2015132-2099001_0000_EIGEN_G---_0005.gz')):
        F[k] = Listing(ctx, k, K, K)
        emit(ctx, f, ['FIRST header', 'CMMNT GRCOF2 is the label'] + ['GRCOF2 %d %d %s %s 0.1 0.2 x' % (l, m, F[k].text('c', l, m), F[k].text('s', l, m)) for l, m in F[k].pairs], 'path')
        os.rename(pathlib.Path(ctx.tmpdir()) / f, base / f)
    mon = ctx.choice('months', [[49, 50, 97, 98], [161, 162, 4, 230]] if ctx.symbolic else [[4, 49, 50, 97, 98, 161, 162, 200], [162], [70, 80, 120], [161, 50, 4]])
    x = read_ecmwf_corrections(base, L, ctx.choice('list', [list, np.array])(mon), **({} if M is None else {'MMAX': M}))
    ctx.shape(x['clm'], (L + 1, Mx + 1, len(mon))); ctx.shape(x['slm'], (L + 1, Mx + 1, len(mon)))
    for j, g in enumerate(mon):
        k = 'GAE' if 50 <= g <= 97 else 'GAF' if 98 <= g <= 161 else 'GAG' if g > 161 else None
        for l in range(L + 1):
            for m in range(Mx + 1):
                ctx.eq(x['clm'][l, m, j], F[k].get('c', l, m) if k else 0.0, 'cosine correction of a month', tol=1e-14); ctx.eq(x['slm'][l, m, j], F[k].get('s', l, m) if k else 0.0, 'sine correction of a month', tol=1e-14)

@contract('modelled values are those of the least squares fit', [GI + '.regress_model'], bounded='proved for the listed terms, for every number of dates', samples=120, budget=120)
def modelled(ctx):
    from contracts.c20 import design, dot, scales
    order, cycles = ctx.choice('terms', [(0, None), (1, []), (0, [1.0]), (2, [])] if ctx.symbolic else [(2, [0.5, 1.0]), (1, [1.0]), (0, None), (1, []), (3, [0.5])])
    k = order + 1 + 2 * len(cycles or [])
    n = ctx.int('n', k + 1, draw=(k + 3, k + 12)); q = ctx.int('q', 2, draw=(2, 6))
    if ctx.symbolic: t, u = ctx.arr('t', (n,)), ctx.arr('u', (q,))
    else:
        t, u = ctx.arr('t', (n,), draw=(2002.0, 2012.0)), ctx.arr('u', (q,), draw=(2002.0, 2012.0)); t[:] = 2002 + 0.43 * np.arange(n) + (t % 1.0) * 0.4
    d = ctx.arr('d', (n,)); rel = ctx.choice('relative', [0.0, 2003.3] if not ctx.symbolic or order else [2003.3])
    r = rel if rel else ctx.sum(0, n, lambda i: t[i]) / n
    kw = dict(ORDER=order, RELATIVE=rel)
    if cycles is not None: kw['CYCLES'] = cycles
    f = design(ctx, t, order, cycles or [], [], r); h = design(ctx, u, order, cycles or [], [], r)
    y = regress_model(t, d, t, **kw); z = regress_model(t, d, u, **kw)
    ctx.shape(y, (n,)); ctx.shape(z, (q,))
    sm = 1 if ctx.symbolic else float(np.abs(y).max() + np.abs(d).max() + np.abs(z).max())
    for j in range(k): ctx.eq(dot(ctx, n, f[j], lambda i: d[i] - y[i]), 0, 'residual orthogonal to term %d' % j, tol=1e-5, scale=scales(ctx, n, f[j]) * sm)
    # values elsewhere are of the same terms
    ctx.forall(((0, q),), lambda i: ctx.eq(regress_model(t, y, u, **kw)[i], z[i], 'model of the modelled values', tol=1e-5, scale=sm))
    c = [ctx.real('c%d' % j) for j in range(k)]
    e = np.array([sum(c[j] * f[j](i) for j in range(k)) for i in range(n)]) if not ctx.symbolic else sum(c[j] * v for j, v in enumerate(columns(t, order, cycles, r)))
    w = regress_model(t, e, u, **kw)
    sc = 1 if ctx.symbolic else sum(abs(c[j]) * max(abs(h[j](i)) for i in range(q)) for j in range(k)) + 1e-3
    ctx.forall(((0, q),), lambda i: ctx.eq(w[i], sum(c[j] * h[j](i) for j in range(k)), 'exact for values of the terms', tol=1e-5, scale=sc))

def columns(t, order, cycles, r):
    out = [(t - r) ** o if o else 1 + 0 * t for o in range(order + 1)]
    for c in cycles or []: out += [np.sin(2 * np.pi * t / c), np.cos(2 * np.pi * t / c)]
    return out

@contract('input months of real files', [GI + '.grace_input_months', G_ + 'grace_find_months.grace_find_months'], symbolic=False, bounded='drawn products of files on disk, degrees up to 6', samples=60)
def files(ctx):
    base = pathlib.Path(ctx.tmpdir()); L = ctx.choice('degree', [3, 5, 6]); M = ctx.choice('mmax', [None, 2]); Mx = L if M is None else M; K = L + ctx.choice('more', [0, 2])
    g0 = ctx.choice('first month', [170, 198]); all_ = []; g = g0
    for i in range(ctx.int('n', 2, 6)):
        e = Entry(ctx, 'CSR', 'RL06', 'GSM', g)
        if not e.name.endswith('.gz'): e.name = os.path.splitext(e.name)[0] + '.gz'
        all_.append(e); g += ctx.choice('step %d' % i, [1, 1, 2])
    d = installed(ctx, base, 'CSR', 'RL06', 'GSM', all_); F = {}
    for e in all_:
        F[e.g] = f = Listing(ctx, 'f%d' % e.g, K, K)
        with gzip.open(d / e.name, 'wb') as o:
            o.write('\n'.join(['header:', '  dimensions:', '    degree : %d' % K, '    order : %d' % K, '# End of YAML header'] + ['GRCOF2 %d %d %s %s %s %s 20030101.0000 20030131.0000 yynn' % ((l, m) + tuple(f.text(k, l, m) for k in ('c', 's', 'ec', 'es'))) for l, m in f.pairs] + ['']).encode())
    x = grace_find_months(base, 'CSR', 'RL06', DSET='GSM')
    ctx.check([int(v) for v in x['missing']] == [v for v in range(4, all_[-1].g) if v not in F], 'months missing')
    a, b = ctx.choice('range', [(int(x['start']), int(x['end'])), (g0 + 1, all_[-1].g + 1), (g0 - 3, g0 + 2)])
    miss = [int(v) for v in x['missing']] + [v for v in range(a, b + 1) if v < g0 or v > all_[-1].g]
    want = [v for v in range(a, b + 1) if v not in miss]
    ctx.assume(len(want) > 0)
    # values of low degrees and geocenter of all months
    gm = list(range(g0 - 1, g0 + 13)); s = Series(ctx, 'x', gm, 2); low = ctx.choice('low degrees', [False, True]); deg1 = ctx.choice('geocenter', ['', 'Tellus'])
    if low: os.rename(put(ctx, 'TN-14_C30_C20_GSFC_SLR.txt', ['TITLE: rows', 'Product: values'] + rows(ctx, s, 'TN')), base / 'TN-14_C30_C20_GSFC_SLR.txt')
    if deg1:
        c = Series(ctx, 'y', gm, 3); out = ['header', 'end of header']
        for i, v in enumerate(gm):
            y, m = ym(v); q = ' %04d%02d01.0000 %04d%02d%02d.0000' % (y, m, y, m, calmonth(y, m))
            out += ['GRCOF2 1 0 %s %s 0.1 0.2' % (c.text(i, 0), c.text(i, 0)) + q, 'GRCOF2 1 1 %s %s 0.1 0.2' % (c.text(i, 1), c.text(i, 2)) + q]
        os.makedirs(base / 'geocenter'); os.rename(put(ctx, 'tn13.txt', out), base / 'geocenter' / 'TN-13_GEOC_CSR_RL06.txt')
    x = grace_input_months(base, 'CSR', 'RL06', 'GSM', L, a, b, miss, 'GSFC' if low else '', deg1, **({} if M is None else {'MMAX': M}), **({'SLR_C30': 'GSFC'} if low else {}))
    ctx.check([int(v) for v in x['month']] == want, 'months')
    for j, g in enumerate(want):
        ctx.check(abs(x['time'][j] - [e for e in all_ if e.g == g][0].date) < 1e-9, 'date of a month'); f = F[g]; i = gm.index(g)
        for l in range(L + 1):
            for m in range(Mx + 1):
                v = [f.get('c', l, m, 1.0 if l == m == 0 else 0.0), f.get('s', l, m), f.get('ec', l, m), f.get('es', l, m)]
                if low and (l, m) == (2, 0): v[0], v[2] = s.val(i, 0), s.err(i, 0)
                if low and (l, m) == (3, 0) and g > 176: v[0], v[2] = s.val(i, 1), s.err(i, 1)
                if deg1 and (l, m) == (1, 0): v[0] = c.val(i, 0)
                if deg1 and (l, m) == (1, 1): v[0], v[1] = c.val(i, 1), c.val(i, 2)
                for k, w in zip(('clm', 'slm', 'eclm', 'eslm'), v): ctx.eq(x[k][l, m, j], w, '%s at degree %d and order %d of a month' % (k, l, m), tol=1e-13, scale=0)
