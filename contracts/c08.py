import gzip, io, os, pathlib, shutil, zipfile
import numpy as np
from dv.ctx import contract
from contracts.common import mk_harmonics, file_callees
from gravity_toolkit.harmonics import harmonics
from gravity_toolkit.time import calendar_to_grace, adjust_months
H = 'gravity_toolkit.harmonics.harmonics.'
EXT = {'ascii': '.txt', 'netCDF4': '.nc', 'HDF5': '.H5'}

def made(ctx, nt=None, date=True):
    L = ctx.choice('lmax', [1, 2, 5, 12, 40]); M = ctx.choice('orders', [L, L, L // 2, 0])
    h = mk_harmonics(ctx, 'h', L, M, nt, time=date)
    if nt is not None and not date: h.time = h.month = None
    h.clm = h.clm * 10.0 ** ctx.choice('power', [0, -12, 5])
    for v in (h.clm, h.slm):
        for l in range(L + 1): v[l, l + 1:] = 0          # orders above the degree do not exist
    h.update_dimensions()
    return h

def put(h, f, fmt, date, via, **kw):
    if via: h.to_file(f, format=fmt, date=date, **kw)
    elif fmt == 'ascii': h.to_ascii(f, date=date, **kw)
    elif fmt == 'netCDF4': h.to_netCDF4(f, date=date, **kw)
    else: h.to_HDF5(f, date=date, **kw)

def get(f, fmt, date, via, **kw):
    if via: return harmonics().from_file(f, format=fmt, date=date, **kw)
    return getattr(harmonics(), 'from_' + fmt)(f, date=date, **kw)

def packed(ctx, f, how, member=None):
    """the file in another container: (what to read, compression)"""
    if how == 'gzip':
        g = pathlib.Path(str(f) + '.gz')
        with open(f, 'rb') as a, gzip.open(g, 'wb') as b: shutil.copyfileobj(a, b)
        os.unlink(f)
        return g, 'gzip'
    if how == 'zip':
        g = pathlib.Path(str(f) + '.zip')
        with zipfile.ZipFile(g, 'w') as z: z.write(f, arcname=member or f.name)
        os.unlink(f)
        return g, 'zip'
    if how == 'bytes':
        with open(f, 'rb') as a: b = io.BytesIO(a.read())
        b.filename = f.name
        os.unlink(f)
        return b, 'bytes'
    return f, None

def compare(ctx, x, h, fmt, date, nt):
    L, M = h.lmax, h.mmax
    ctx.check(int(x.lmax) == L and int(x.mmax) == M, 'degree and order')
    one = nt is None or nt == 1
    sh = (L + 1, M + 1) if one else (L + 1, M + 1, nt)
    a, b = np.asarray(h.clm), np.asarray(h.slm)
    if one and nt == 1: a, b = a[:, :, 0], b[:, :, 0]
    ctx.shape(x.clm, sh); ctx.shape(x.slm, sh)
    ctx.check(tuple(x.shape) == sh and x.ndim == len(sh), 'dimensions')
    if fmt == 'ascii':
        for u, v in ((x.clm, a), (x.slm, b)): ctx.check(bool(np.all(np.abs(np.asarray(u) - v) <= 5.1e-13 * np.abs(v) + 1e-300)), 'coefficients to the printed precision')
    else:
        for u, v in ((x.clm, a), (x.slm, b)): ctx.check(np.array_equal(np.asarray(u), v), 'coefficients')
    ctx.check(not np.ma.is_masked(x.clm) and not np.ma.is_masked(x.slm), 'no coefficient is invalid')
    if date:
        t = np.atleast_1d(np.asarray(h.time, dtype=float)); m = np.atleast_1d(np.asarray(h.month))
        u = np.atleast_1d(np.asarray(x.time, dtype=float))
        ctx.shape(u, t.shape)
        if fmt == 'ascii':
            ctx.check(bool(np.all(np.abs(u - t) <= 5.1e-5)), 'date to the printed precision')
            ctx.check(np.array_equal(np.atleast_1d(np.asarray(x.month)), np.atleast_1d(adjust_months(calendar_to_grace(u)))), 'month of the date')
        else:
            ctx.check(np.array_equal(u, t), 'date'); ctx.check(np.array_equal(np.atleast_1d(np.asarray(x.month)), np.atleast_1d(adjust_months(m))), 'month')
        ctx.check(np.ndim(x.time) == (0 if one else 1) and np.ndim(x.month) == (0 if one else 1), 'dimensions of the dates')
    else: ctx.check(x.time is None and x.month is None, 'no date')

@contract('coefficients read back as they were written', [H + k for k in ('from_ascii', 'to_ascii', 'from_netCDF4', 'to_netCDF4', 'from_HDF5', 'to_HDF5', 'from_file', 'to_file')], symbolic=False, bounded='drawn objects to degree 40', samples=120)
def roundtrip(ctx):
    fmt = ctx.choice('format', ['ascii', 'netCDF4', 'HDF5']); date = ctx.choice('date', [True, True, False])
    nt = None if fmt == 'ascii' or not date else ctx.choice('nt', [None, None, 1, 2, 5])
    h = made(ctx, nt, ctx.choice('dated', [True, False]) if not date else True)
    via, how = ctx.choice('via', [False, True]), ctx.choice('container', [None, None, 'gzip', 'zip', 'bytes'])
    f = pathlib.Path(ctx.tmpdir()) / ('sub_%d%s' % (ctx.rng.randint(0, 99), EXT[fmt]))
    old = [None if v is None else ctx.snap(v) for v in (h.clm, h.slm, h.time, h.month)]
    put(h, ctx.choice('name', [str, pathlib.Path])(f), fmt, date, via)
    for v, o in zip((h.clm, h.slm, h.time, h.month), old):
        if o is not None: ctx.check(np.array_equal(v, o) and np.shape(v) == np.shape(o), 'written object unchanged')
    g, c = packed(ctx, f, how)
    if c is None and ctx.choice('case', [False, True]): g = g.with_name(g.name.upper())
    x = get(g if how == 'bytes' else ctx.choice('read name', [str, pathlib.Path])(g), fmt, date, via, **({'compression': c} if c else {}))
    compare(ctx, x, h, fmt, date, nt)
    if how is None: ctx.check(x.filename is None or pathlib.Path(x.filename).exists(), 'name of the file')

@contract('text written by others reads to the listed coefficients', H + 'from_ascii', symbolic=False, bounded='drawn files', samples=60)
def text(ctx):
    L = ctx.choice('lmax', [1, 3, 8]); M = ctx.choice('orders', [L, L // 2])
    rows = [(l, m) for l in range(L + 1) for m in range(min(l, M) + 1)]
    keep = [k for k in rows if k == (L, M) or k == (L, 0) or ctx.rng.random() < 0.7]
    if ctx.choice('shuffled', [False, True]): ctx.rng.shuffle(keep)
    e = ctx.choice('exponent', ['e', 'E', 'D', None]); date = ctx.choice('date', [True, False])
    t = round(ctx.rng.uniform(2002, 2024), 4)
    c, s = {}, {}
    out = []
    for k in keep:
        w = []
        for d in (c, s):
            v = ctx.rng.choice([0.0, ctx.rng.uniform(-3, 3), ctx.rng.uniform(-1, 1) * 1e-9])
            if e is None: q = '%.14f' % v; d[k] = float(q)
            else: q = ('%.12e' % v); d[k] = float(q); q = q.replace('e', e)
            w.append(q)
        out.append('%d %d %s %s' % (k + tuple(w)) + (' %.4f' % t if date else ''))
    f = pathlib.Path(ctx.tmpdir()) / 'coefficients.txt'
    f.write_text('\n'.join(out) + '\n')
    x = harmonics().from_ascii(f, date=date)
    ctx.check(int(x.lmax) == L and int(x.mmax) == M, 'degree and order')
    ctx.shape(x.clm, (L + 1, M + 1))
    for l in range(L + 1):
        for m in range(M + 1):
            ctx.eq(x.clm[l, m], c.get((l, m), 0.0), 'cosine', tol=1e-15); ctx.eq(x.slm[l, m], s.get((l, m), 0.0), 'sine', tol=1e-15)
    if date: ctx.eq(x.time, t, 'date', tol=1e-12)
    else: ctx.check(x.time is None and x.month is None, 'no date')
    ctx.raises((FileNotFoundError,), lambda: harmonics().from_ascii(str(f) + '_'), 'missing files are refused')

@contract('attributes and names are written and read', [H + k for k in ('from_netCDF4', 'to_netCDF4', 'from_HDF5', 'to_HDF5')], symbolic=False, bounded='drawn objects', samples=40)
def attributes(ctx):
    fmt = ctx.choice('format', ['netCDF4', 'HDF5']); nt = ctx.choice('nt', [None, 1, 3]); h = made(ctx, nt)
    h.attributes['ROOT'] = {'lineage': 'a', 'max_degree': 3} if ctx.choice('own', [True, False]) else {}
    own = dict(h.attributes['ROOT'])
    kw = {k: v for k, v in (('units', 'cmwe'), ('title', 'T'), ('source', 'S'), ('reference', 'R'), ('time_units', 'decimal'), ('time_longname', 'dates'), ('months_units', 'count'), ('months_longname', 'months')) if ctx.choice(k, [True, False])}
    f = pathlib.Path(ctx.tmpdir()) / ('a' + EXT[fmt])
    put(h, f, fmt, True, ctx.choice('via', [False, True]), **kw)
    x = get(f, fmt, True, False)
    compare(ctx, x, h, fmt, True, nt)
    a = x.attributes
    for k, n in (('l', 'spherical_harmonic_degree'), ('m', 'spherical_harmonic_order')): ctx.check(list(a[k]) == ['Wavenumber', n], 'attributes of ' + k)
    for k, n in (('clm', 'cosine_spherical_harmonics'), ('slm', 'sine_spherical_harmonics')): ctx.check(list(a[k]) == [kw.get('units', 'Geodesy_Normalization'), n], 'attributes of ' + k)
    ctx.check(list(a['time']) == [kw.get('time_units', 'years'), kw.get('time_longname', 'Date_in_Decimal_Years')], 'attributes of time')
    ctx.check(list(a['month']) == [kw.get('months_units', 'number'), kw.get('months_longname', 'GRACE_month')], 'attributes of month')
    for k, v in own.items(): ctx.check(a['ROOT'][k] == v, 'own attributes')
    for k in ('title', 'source', 'reference'):
        if k in kw: ctx.check(a['ROOT'][k] == kw[k], 'requested attributes')

@contract('an index lists the files of a series once and gives it back', [H + k for k in ('to_index', 'from_index', 'from_list', 'compressuser', 'case_insensitive_filename')], symbolic=False, bounded='drawn series of up to 6 epochs', samples=60)
def index(ctx):
    fmt = ctx.choice('format', ['ascii', 'netCDF4', 'HDF5']); n = ctx.choice('n', [1, 2, 6]); h = made(ctx, n)
    date = True
    h.time = np.sort(np.round(h.time, 4)); h.month = np.asarray(calendar_to_grace(h.time)).astype(int)
    h.month = np.asarray(adjust_months(h.month)); tmp = pathlib.Path(ctx.tmpdir())
    home = os.environ.get('HOME')
    try:
        if ctx.choice('home', [False, True]): os.environ['HOME'] = str(tmp)
        files = [tmp / ('part_%02d%s' % (i, EXT[fmt])) for i in range(n)]
        f = tmp / 'index.txt'
        h.to_index(f, files, format=fmt, date=date)
        lines = f.read_text().splitlines()
        ctx.check([pathlib.Path(l).expanduser() for l in lines] == files, 'every file is listed once, in order')
        ctx.check(all(l.startswith('~') == (os.environ.get('HOME') == str(tmp)) for l in lines), 'files within the home directory are listed from it')
        ctx.check(all(k.exists() for k in files), 'files are written')
        if ctx.choice('comments', [False, True]): lines = ['# a comment', ''] + lines[:1] + ['% another'] + lines[1:]
        order = ctx.choice('sort', [True, False]); back = ctx.choice('reversed', [False, True])
        if back: lines = lines[::-1]
        f.write_text('\n'.join(lines) + '\n')
        x = harmonics().from_index(f, format=fmt, date=date, **({} if order else {'sort': False}))
    finally:
        if home is None: os.environ.pop('HOME', None)
        else: os.environ['HOME'] = home
    if len(set(np.asarray(h.month))) < n and fmt == 'ascii': return
    if back and not order:
        h.clm, h.slm, h.time, h.month = h.clm[:, :, ::-1], h.slm[:, :, ::-1], h.time[::-1], h.month[::-1]
    x.update_dimensions()
    ctx.shape(x.clm, (h.lmax + 1, h.mmax + 1, n))
    tol = 1e-12 if fmt == 'ascii' else 0
    if len(set(np.asarray(h.month))) == n:
        for i in range(n):
            ctx.eq(x.clm[:, :, i], h.clm[:, :, i], 'cosines', tol=tol); ctx.eq(x.slm[:, :, i], h.slm[:, :, i], 'sines', tol=tol)
        ctx.eq(x.time, h.time, 'dates', tol=1e-12); ctx.check(np.array_equal(np.asarray(x.month), np.asarray(h.month)), 'months')

@contract('dictionaries of harmonics keep coefficients and dates', [H + 'from_dict', H + 'to_dict'], symbolic=False, bounded='drawn objects', samples=30)
def dictionary(ctx):
    nt = ctx.choice('nt', [None, 1, 4]); h = made(ctx, nt)
    h.update_dimensions(); d = h.to_dict()
    for k in ('l', 'm', 'clm', 'slm', 'time', 'month'): ctx.check(np.array_equal(d[k], getattr(h, k)), k)
    for k in ('time', 'month'): d[k] = np.asarray(d[k])
    d['attributes'] = {'title': 'T'}
    x = harmonics().from_dict(d)
    ctx.check(int(x.lmax) == h.lmax and int(x.mmax) == h.mmax, 'degree and order')
    ctx.check(np.array_equal(x.clm, h.clm) and np.array_equal(x.slm, h.slm), 'coefficients')
    ctx.check(np.array_equal(x.time, h.time) and np.array_equal(x.month, h.month), 'dates')
    ctx.check(x.attributes['ROOT'] == {'title': 'T'}, 'attributes')
    old = ctx.snap(h.clm); x.clm[...] = 7
    ctx.check(np.array_equal(h.clm, old), 'independent of the dictionary')

@contract('any coefficients and dates read back from a file that keeps its variables', [H + k for k in ('from_netCDF4', 'to_netCDF4', 'from_HDF5', 'to_HDF5', 'flatten', 'expand', 'squeeze', 'expand_dims')], samples=30, timeout=20, bounded='maximum degrees up to 3, every coefficient, date and number of epochs')
def kept(ctx):
    L, M = ctx.choice('lmax', [(2, 2), (3, 1), (1, 0)]); fmt = ctx.choice('format', ['netCDF4', 'HDF5'])
    dims = ctx.choice('dims', ['2d', '3d', 'undated']); nt = ctx.int('nt', 2, draw=(2, 5)) if dims == '3d' else None
    h = mk_harmonics(ctx, 'h', L, M, nt, time=dims != 'undated')
    ctx.callee('gravity_toolkit.time', 'adjust_months', lambda m: m)       # of months without repeats (C05)
    f = file_callees(ctx, 'gravity_toolkit.harmonics'); date = dims != 'undated'
    old = [ctx.snap(h.clm), ctx.snap(h.slm)]
    if fmt == 'netCDF4': h.to_netCDF4(f, date=date); x = harmonics().from_netCDF4(f, date=date)
    else: h.to_HDF5(f, date=date); x = harmonics().from_HDF5(f, date=date)
    ctx.check(x.lmax == L and x.mmax == M, 'degree and order')
    ctx.shape(x.clm, old[0].shape); ctx.shape(x.slm, old[1].shape)
    def one(*i):
        for l in range(L + 1):
            for m in range(M + 1):
                ctx.eq(x.clm[(l, m) + i], old[0][(l, m) + i] if m <= l else 0, 'cosines', tol=0); ctx.eq(x.slm[(l, m) + i], old[1][(l, m) + i] if m <= l else 0, 'sines', tol=0)
        if nt is not None: ctx.eq(x.time[i], h.time[i], 'dates', tol=0)
    if nt is None: one()
    else: ctx.forall([(0, nt)], one)
    if nt is None and date: ctx.eq(x.time, h.time, 'date', tol=0); ctx.eq(x.month, h.month, 'month', tol=0)
    ctx.eq(h.clm, old[0], 'written object unchanged', tol=0); ctx.eq(h.slm, old[1], 'written object unchanged', tol=0)
