import gzip, io, os, pathlib, tarfile
import numpy as np
import gravity_toolkit as gravtk
from dv.ctx import contract
from contracts.common import day_number
from contracts.c26 import Patched
from scripts.convert_harmonics import convert_harmonics
from scripts.combine_harmonics import combine_harmonics
from scripts.grace_mean_harmonics import grace_mean_harmonics
from scripts.aod1b_geocenter import aod1b_geocenter
from scripts.aod1b_oblateness import aod1b_oblateness
from scripts.dealiasing_monthly_mean import dealiasing_monthly_mean, calc_julian_day
S = 'scripts.'

@contract('Julian day of a day of the year', S + 'dealiasing_monthly_mean.calc_julian_day')
def julian(ctx):
    y = ctx.int('year', 1901, 2098, draw=(1995, 2040)); d = ctx.int('day', 1, 366)
    ctx.eq(calc_julian_day(y, d), day_number(ctx, y, 1, 1) + (d - 1) + ctx.lit('1721425.5') - day_number(ctx, 1, 1, 1), 'Julian day at midnight', tol=1e-12, scale=1)

# ------------------------------------------------------------------------------ grids and harmonics
FORMATS = ['ascii', 'netCDF4', 'HDF5']
ENDING = {'ascii': '.txt', 'netCDF4': '.nc', 'HDF5': '.H5'}
def dates(r, n):
    """dates within consecutive months, and the numbers of the months"""
    k = r.randrange(0, 240)
    t = np.array([2002 + (k + i) / 12 + r.uniform(0.03, 0.05) for i in range(n)]); m = np.array([k + i + 1 for i in range(n)])
    return t, m
def axes(r, interval, bounds=None):
    dlon, dlat = r.choice([30.0, 20.0, 45.0, 22.5, 60.0]), r.choice([30.0, 20.0, 22.5, 18.0, 45.0])
    if interval == 1: return dlon, dlat, dlon * np.arange(round(360 / dlon) + 1), 90 - dlat * np.arange(round(180 / dlat) + 1)
    if interval == 2: return dlon, dlat, dlon / 2 + dlon * np.arange(round(360 / dlon)), 90 - dlat / 2 - dlat * np.arange(round(180 / dlat))
    nx, ny = r.randint(1, 5), r.randint(1, 5); x0 = r.choice([-180.0, -40.0, 0.0, 10.0]); y0 = r.choice([-90.0, -60.0, 0.0]) 
    ny = min(ny, int((90 - y0) / dlat))
    return dlon, dlat, x0 + dlon / 2 + dlon * np.arange(nx), y0 + dlat * ny - dlat / 2 - dlat * np.arange(ny)

@contract('grids converted to harmonics', S + 'convert_harmonics.convert_harmonics', symbolic=False, samples=30, bounded='global grids at drawn spacings, degrees to 8, with and without dates, every format')
def converted(ctx):
    r = ctx.rng; d = pathlib.Path(ctx.tmpdir()); fmt = r.choice(FORMATS); date = r.random() < 0.6
    nt = r.choice([None, 1, 2, 3]) if date and fmt != 'ascii' else None
    iv = r.choice([1, 2]); dlon, dlat, lon, lat = axes(r, iv)
    fill = r.choice([-9999.0, -99999.0, 1e20] if fmt != 'ascii' else [-9999.0, -99999.0])
    shape = (len(lat), len(lon)) + ((nt,) if nt else ())
    g = gravtk.spatial(fill_value=fill); g.lat, g.lon = lat.copy(), lon.copy()
    g.data = np.array([r.choice([0.0, 1.0]) if r.random() < 0.1 else round(r.uniform(-30, 30), 3) for _ in range(int(np.prod(shape)))]).reshape(shape)
    g.mask = np.array([r.random() < 0.15 for _ in range(g.data.size)]).reshape(shape)
    g.data[g.mask] = fill
    t, mon = dates(r, nt or 1)
    if date: g.time, g.month = (t, mon) if nt else (t[0], mon[0])
    src = d / ('in' + ENDING[fmt]); out = d / 'a' / ('out' + ENDING[fmt])
    g.to_file(src, format=fmt, date=date)
    L = r.randint(1, 8); M = r.choice([None, L, r.randint(0, L)]); unit = r.choice([1, 2, 3]); frame = r.choice(['CF', 'CM', 'CE']); love = r.choice([0, 1, 2, 3])
    convert_harmonics(src, out, LMAX=L, MMAX=M, UNITS=unit, LOVE_NUMBERS=love, REFERENCE=frame, DDEG=r.choice([[dlon, dlat]] + ([[dlon, dlon], dlon] if dlon == dlat else [])),
        INTERVAL=iv, FILL_VALUE=fill, DATAFORM=fmt, DATE=date)
    Y = gravtk.harmonics().from_file(out, format=fmt, date=date)
    m = L if M is None else M
    LOVE = gravtk.load_love_numbers(L, LOVE_NUMBERS=love, REFERENCE=frame, FORMAT='class')
    ctx.check((Y.lmax, Y.mmax) == (L, m) or fmt == 'ascii' and Y.lmax == L, 'degree and order')
    data = np.where(g.mask, 0.0, g.data).reshape(len(lat), len(lon), nt or 1)
    C = np.atleast_3d(Y.clm)[:L + 1, :m + 1]; T = np.atleast_3d(Y.slm)[:L + 1, :m + 1]
    ctx.check(C.shape == (L + 1, m + 1, nt or 1), 'months')
    for i in range(nt or 1):
        e = gravtk.gen_stokes(data[:, :, i], lon, lat, UNITS=unit, LMIN=0, LMAX=L, MMAX=m, LOVE=LOVE)
        s = float(max(np.abs(e.clm).max(), np.abs(e.slm).max()))
        ctx.eq(C[:, :, i], e.clm[:L + 1, :m + 1], 'cosine coefficients', tol=2e-6 if fmt == 'ascii' else 1e-9, scale=s)
        ctx.eq(T[:, :, i], e.slm[:L + 1, :m + 1], 'sine coefficients', tol=2e-6 if fmt == 'ascii' else 1e-9, scale=s)
    if date:
        ctx.eq(np.atleast_1d(Y.time), t, 'dates', tol=1.3e-8 if fmt == 'ascii' else 1e-13, scale=1)
        ctx.check(list(np.atleast_1d(Y.month)) == list(mon), 'months')
    if fmt != 'ascii':
        a = Y.attributes['ROOT']
        ctx.check(str(a['lineage']) == src.name and int(a['max_degree']) == L and int(a['max_order']) == m, 'attributes')
        ctx.check(str(a['earth_model']) == LOVE.model and str(a['reference_frame']) == frame, 'earth model')

def field(r, L, nt, scale=1e-8):
    tri = np.tri(L + 1)[:, :, None]
    f = lambda: np.array([r.uniform(-1, 1) for _ in range((L + 1)**2 * nt)]).reshape(L + 1, L + 1, nt) * tri * scale
    c, s = f(), f(); s[:, 0] = 0
    return c, s

def write(p, fmt, date, c, s, t, mon):
    Y = gravtk.harmonics(lmax=len(c) - 1, mmax=len(c) - 1)
    Y.clm, Y.slm = (c[:, :, 0], s[:, :, 0]) if c.shape[2] == 1 else (c, s)
    if date: Y.time, Y.month = (t[0], mon[0]) if c.shape[2] == 1 else (t, mon)
    Y.to_file(p, format=fmt, date=date)

@contract('harmonics combined to grids', S + 'combine_harmonics.combine_harmonics', symbolic=False, samples=60, bounded='degrees to 8, global and regional grids at drawn spacings, every format, unit and option')
def combined(ctx):
    r = ctx.rng; d = pathlib.Path(ctx.tmpdir()); fmt = r.choice(FORMATS); index = r.random() < 0.4; date = index or r.random() < 0.6
    nt = r.choice([1, 2, 3]) if date and fmt != 'ascii' else 1
    high = r.random() < 0.3; L0 = r.randint(6, 12) if high else r.randint(1, 9); c, s = field(r, L0, nt); t, mon = dates(r, nt)
    if index:
        src = d / 'index.txt'; names = []
        for i in range(nt):
            p = d / ('month_%03d%s' % (mon[i], ENDING[fmt])); names.append(str(p))
            write(p, fmt, date, c[:, :, i:i + 1], s[:, :, i:i + 1], t[i:i + 1], mon[i:i + 1])
        src.write_text('\n'.join(names) + '\n')
    else:
        src = d / ('in' + ENDING[fmt]); write(src, fmt, date, c, s, t, mon)
    L = r.randint(6 if high else 1, L0); M = r.choice([None, L] if high else [None, L, r.randint(0, L)]); m = L if M is None else M
    kw = {}
    if r.random() < 0.5:
        mc, ms = field(r, L0 if r.random() < 0.2 else L, 1); kw['MEAN_FILE'] = d / ('mean' + ENDING[fmt])
        if len(mc) - 1 == L and m == L:
            write(kw['MEAN_FILE'], fmt, False, mc, ms, None, None)
        else: kw.pop('MEAN_FILE')
    has_mean = 'MEAN_FILE' in kw
    # (the degree one of a load in the centre of mass is unbounded)
    love = r.choice([0, 1, 2, 3]); unit = r.choice([1, 1, 2, 3, 4, 5]); frame = r.choice(['CF', 'CE', 'CM'] if unit == 2 else ['CF', 'CE']); rad = r.choice([0, 0, 300, 250.0, 500])
    LOVE = gravtk.load_love_numbers(L, LOVE_NUMBERS=love, REFERENCE=frame, FORMAT='class')
    if r.random() < 0.3 and m == L:
        import netCDF4
        p = d / 'land.nc'; nl, nL = 10, 18; land = np.array([r.randint(0, 3) for _ in range(nl * nL)]).reshape(nl, nL)
        with netCDF4.Dataset(p, 'w') as f:
            f.createDimension('lat', nl); f.createDimension('lon', nL)
            f.createVariable('lat', 'f8', ('lat',))[:] = 81 - 18.0 * np.arange(nl); f.createVariable('lon', 'f8', ('lon',))[:] = 10 + 20.0 * np.arange(nL)
            f.createVariable('LSMASK', 'i1', ('lat', 'lon'))[:] = land
        kw.update(REDISTRIBUTE=True, LANDMASK=p)
    destripe = L >= 6 and m == L and r.random() < 0.6
    iv = r.choice([1, 2, 3]); dlon, dlat, lon, lat = axes(r, iv)
    if iv == 3: kw['BOUNDS'] = [float(lon[0] - dlon / 2), float(lon[-1] + dlon / 2), float(lat[-1] - dlat / 2), float(lat[0] + dlat / 2)]
    if len(lat) < 2 or len(lon) < 2: return
    out = d / 'a' / ('out' + ENDING[fmt])
    combine_harmonics(src, out, LMAX=L, MMAX=M, LOVE_NUMBERS=love, REFERENCE=frame, RAD=rad, DESTRIPE=destripe, UNITS=unit, DDEG=[dlon, dlat] if dlon != dlat or r.random() < 0.5 else [dlon],
        INTERVAL=iv, DATAFORM='index-' + fmt if index else fmt, DATE=date, **kw)
    # the harmonics given to the degree and order asked for, less the mean and the mass over the ocean
    C, T = c[:L + 1, :m + 1].copy(), s[:L + 1, :m + 1].copy()
    if has_mean: C -= mc; T -= ms
    if 'LANDMASK' in kw:
        o = gravtk.ocean_stokes(kw['LANDMASK'], L, MMAX=m, LOVE=LOVE)
        q = C[0, 0].copy() / o.clm[0, 0]
        C -= o.clm[:, :, None] * q; T -= o.slm[:, :, None] * q
    if destripe:
        for i in range(nt):
            Y = gravtk.harmonics(lmax=L, mmax=L); Y.clm, Y.slm = C[:, :, i], T[:, :, i]; Y.time = 0.0; Y.month = 0
            Y = Y.destripe(); C[:, :, i], T[:, :, i] = Y.clm, Y.slm
    w = gravtk.units(lmax=L).harmonic(*LOVE).get([None, 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar'][unit]) * (2 * np.pi * gravtk.gauss_weights(rad, L) if rad else 1.0)
    P, _ = gravtk.plm_holmes(L, np.cos(np.radians(90 - lat)))
    k = np.arange(m + 1)[:, None] * np.radians(lon)[None, :]
    e = np.einsum('lmi,lmt,mj->ijt', P[:, :m + 1] * w[:, None, None], C, np.cos(k)) + np.einsum('lmi,lmt,mj->ijt', P[:, :m + 1] * w[:, None, None], T, np.sin(k))
    assert np.isfinite(e).all()
    if fmt == 'ascii': g = gravtk.spatial().from_ascii(out, spacing=[dlon, dlat], nlat=len(lat), nlon=len(lon), extent=[lon[0], lon[-1], lat[-1], lat[0]], date=date)
    else: g = gravtk.spatial().from_file(out, format=fmt, date=date)
    sc = float(np.abs(e).max()) + 1e-30
    ctx.check(np.squeeze(g.data).shape == np.squeeze(e).shape, 'shape')
    ctx.eq(np.squeeze(g.data), np.squeeze(e), 'values of the grid', tol=2e-9 if fmt != 'ascii' else 1e-6, scale=sc if fmt != 'ascii' else sc + 70)
    ctx.eq(g.lon, lon, 'longitudes', tol=1e-9, scale=1); ctx.eq(g.lat, lat, 'latitudes', tol=1e-9, scale=1)
    if date:
        ctx.eq(np.atleast_1d(g.time), t, 'dates', tol=1.3e-8 if fmt == 'ascii' else 1e-13, scale=1)
        if fmt != 'ascii': ctx.check(list(np.atleast_1d(g.month)) == list(mon), 'months')
    if fmt != 'ascii':
        a = g.attributes['ROOT']
        ctx.check(int(a['max_degree']) == L and int(a['max_order']) == m and str(a['earth_model']) == LOVE.model and str(a['reference_frame']) == frame, 'attributes')
        ctx.check(list(np.atleast_1d(a['lineage'])) == ([os.path.basename(n) for n in names] if index else [src.name]), 'lineage')

# ------------------------------------------------------------------------------ mean of the gravity fields
@contract('mean of the months of a product', S + 'grace_mean_harmonics.grace_mean_harmonics', symbolic=False, samples=30, bounded='2 to 6 drawn months of degrees to 8, every format')
def mean(ctx):
    r = ctx.rng; d = pathlib.Path(ctx.tmpdir()); nt = r.randint(1, 6); L = r.randint(1, 8); M = r.choice([None, L, r.randint(1, L)]); m = L if M is None else M
    c, s = field(r, L, nt); ec, es = (np.abs(x) * 0.01 for x in field(r, L, nt)); t, mon = dates(r, nt)
    for x in (c, s, ec, es): x[:, m + 1:] = 0
    cut = lambda x: x[:, :m + 1].copy()
    title = r.choice(['', '_w#', '_SLR']); proc, rel, prod = r.choice(['CSR', 'GFZ', 'JPL']), r.choice(['RL05', 'RL06']), r.choice(['GSM', 'GAC'])
    args = dict(ATM=r.random() < 0.5, POLE_TIDE=r.random() < 0.5, DEG1=r.choice([None, 'Tellus']), DEG1_FILE=r.choice([None, 'a.txt']), MODEL_DEG1=r.random() < 0.5)
    args.update({k: r.choice([None, 'CSR', 'GFZ']) for k in ('SLR_C20', 'SLR_21', 'SLR_22', 'SLR_C30', 'SLR_C40', 'SLR_C50')})
    start, end, missing = int(mon[0]), int(mon[-1]), [int(mon[0]) + 1]
    seen = []
    def months(base, *a, **k):
        seen.append((a, k))
        return dict(clm=cut(c), slm=cut(s), eclm=cut(ec), eslm=cut(es), time=t.copy(), month=mon.copy(), l=np.arange(L + 1), m=np.arange(m + 1), title=title, directory=d / 'out', attributes={'a': 'b'})
    fmt = r.choice(['ascii', 'netCDF4', 'HDF5', 'gfc']); given = d / 'mean' / 'my_mean' if r.random() < 0.5 else None
    with Patched(ctx, {('gravity_toolkit', 'grace_input_months'): months}):
        p = grace_mean_harmonics(d, proc, rel, prod, L, START=start, END=end, MISSING=missing, MMAX=M, MEAN_FILE=given, MEANFORM=fmt, **args)
    (a, k), = seen
    ctx.check(a[:7] == (proc, rel, prod, L, start, end, missing), 'months asked for')
    k = dict(k, SLR_C20=a[7] if len(a) > 7 else k.get('SLR_C20'), DEG1=a[8] if len(a) > 8 else k.get('DEG1'))
    ctx.check(k['MMAX'] == m and all(k.get(n) == v for n, v in args.items()), 'options of the months')
    # the name of the file
    e = {'ascii': 'txt', 'netCDF4': 'nc', 'HDF5': 'H5', 'gfc': 'gfc'}[fmt]
    name = f'{proc}_{rel}_{prod}_MEAN_CLM{title}_L{L}{"M%d" % m if m != L else ""}_{start:03d}-{end:03d}.{e}'
    ctx.check(pathlib.Path(p) == (given or d / 'out' / name) and pathlib.Path(p).exists(), 'file of the mean')
    if fmt == 'gfc':
        C, T, EC, ES = (np.zeros((L + 1, L + 1)) for _ in range(4)); n = 0
        text = pathlib.Path(p).read_text().splitlines(); head = [i for i, x in enumerate(text) if x.startswith('end_of_head')][0]
        for x in text[head + 1:]:
            w = x.split()
            if w and w[0] == 'gfc':
                i, j = int(w[1]), int(w[2]); C[i, j], T[i, j], EC[i, j], ES[i, j] = map(float, w[3:7]); n += 1
        ctx.check(n == sum(L + 1 - j for j in range(m + 1)), 'one line per coefficient')
        h = {x.split()[0]: x.split()[1] for x in text[:head] if len(x.split()) > 1}
        ctx.check(float(h['earth_gravity_constant']) == 3.986004415e14 and float(h['radius']) == 6378136.3 and int(h['max_degree']) == L and h['product_name'] == prod and h['norm'] == 'fully_normalized', 'header')
        ctx.eq(EC, np.sqrt((ec**2).mean(axis=2)), 'cosine errors', tol=1e-5, scale=1e-8); ctx.eq(ES, np.sqrt((es**2).mean(axis=2)), 'sine errors', tol=1e-5, scale=1e-8)
    else:
        Y = gravtk.harmonics().from_file(p, format=fmt); C, T = Y.clm, Y.slm
        ctx.eq(Y.time, t.mean(), 'date of the mean', tol=1.3e-8 if fmt == 'ascii' else 1e-13, scale=1)
        if fmt != 'ascii': ctx.check(Y.attributes['ROOT']['product_name'] == prod and Y.attributes['ROOT']['a'] == 'b' and int(Y.attributes['ROOT']['max_degree']) == L, 'attributes')
    ctx.eq(C[:, :m + 1], c.mean(axis=2)[:, :m + 1], 'cosine coefficients', tol=1e-10, scale=1e-8); ctx.eq(T[:, :m + 1], s.mean(axis=2)[:, :m + 1], 'sine coefficients', tol=1e-10, scale=1e-8)

# ------------------------------------------------------------------------------ atmosphere and ocean dealiasing data
TYPES = ['atm', 'ocn', 'glo', 'oba']
class Dealiasing:
    """daily files of dealiasing coefficients (release 5: every 6 hours to degree 100, release 6: every 3 hours to degree 180)"""
    def __init__(self, r, folder, rel, dset):
        self.r, self.folder, self.rel, self.dset = r, folder, rel, dset; self.L, self.n = (100, 4) if rel == 'RL05' else (180, 8)
        self.low = {}; folder.mkdir(parents=True, exist_ok=True); self.at = 8
        self.lm = [(l, m) for m in range(self.L + 1) for l in range(m, self.L + 1)] if r.random() < 0.5 else [(l, m) for l in range(self.L + 1) for m in range(l + 1)]
        self.rest = [f'{l:5d}{m:5d}  0.0000000000e+00  0.0000000000e+00' for l, m in self.lm]
        self.first = [i for i, (l, m) in enumerate(self.lm) if l < self.at]
    def day(self, y, mo, d):
        """text of a day: coefficients below a degree are drawn"""
        out = ['PRODUCER AGENCY               : GFZ', 'NUMBER OF DATA SETS           : %4d' % (4 * self.n), 'END OF HEADER']; k = 0
        for h in range(self.n):
            for ty in self.r.sample(TYPES, 4):
                k += 1
                out.append(f'DATA SET {k:02d}:   {len(self.lm):5d} COEFFICIENTS FOR {y:4d}-{mo:02d}-{d:02d} {h * 24 // self.n:02d}:00:00 OF TYPE {ty}')
                lines = list(self.rest) if ty == self.dset else [self.rest[i] for i in self.first]
                c, s = np.zeros((2, self.at, self.at))
                for q, i in enumerate(self.first):
                    l, m = self.lm[i]; c[l, m] = round(self.r.uniform(-9, 9), 9) * 1e-9; s[l, m] = round(self.r.uniform(-9, 9), 9) * 1e-9 if m else 0.0
                    lines[i if ty == self.dset else q] = f'{l:5d}{m:5d} {c[l, m]:+17.10e} {s[l, m]:+17.10e}'
                if ty == self.dset: self.low[y, mo, d, h * 24 // self.n] = (c, s)
                out += lines
        return ('\n'.join(out) + '\n').encode()
    def month(self, y, mo, days, mtime=1e9):
        v = self.rel[2:]; p = self.folder / f'AOD1B_{y:4d}-{mo:02d}_{v}{self.r.choice([".tar.gz", ".tgz"])}'
        with tarfile.open(p, 'w:gz', compresslevel=1) as f:
            for d in days:
                z = self.r.random() < 0.7; b = self.day(y, mo, d); b = gzip.compress(b, 1) if z else b
                i = tarfile.TarInfo(f'AOD1B_{y:4d}-{mo:02d}-{d:02d}_X_{v}.asc' + ('.gz' if z else '')); i.size = len(b); i.mtime = mtime
                f.addfile(i, io.BytesIO(b))
        os.utime(p, (mtime, mtime))
        return p

def series(ctx, fn, folder, rel, n):
    """monthly series of low-degree coefficients"""
    r = ctx.rng; d = pathlib.Path(ctx.tmpdir()); dset = r.choice(TYPES); a = Dealiasing(r, d / 'AOD1B' / rel, rel, dset); pairs = []
    for _ in range(n):
        y, mo = r.randint(1998, 2022), r.randint(1, 12)
        if (y, mo) in [q[:2] for q in pairs]: continue
        days = sorted(r.sample(range(1, 29), 2 if rel == 'RL05' else 1)); a.month(y, mo, days); pairs.append((y, mo, days))
    (d / 'AOD1B' / rel / 'README.txt').write_text('not an archive')
    fn(d, DREL=rel, DSET=dset)
    out = d / 'AOD1B' / rel / folder
    ctx.check(sorted(os.listdir(out)) == sorted(f'AOD1B_{rel}_{dset}_{y:4d}_{mo:02d}.txt' for y, mo, _ in pairs), 'one file per month')
    for y, mo, days in pairs:
        x = (out / f'AOD1B_{rel}_{dset}_{y:4d}_{mo:02d}.txt').read_text().splitlines(); rows = [w.split() for w in x if not w.startswith('#')]
        ctx.check(dset in x[0].split() and rel in x[0].split(), 'header')
        ctx.check([w[0] for w in rows] == [f'{y:4d}-{mo:02d}-{q:02d}T{h * 24 // a.n:02d}:00:00' for q in days for h in range(a.n)], 'every hour of every day')
        for w, (q, h) in zip(rows, [(q, h * 24 // a.n) for q in days for h in range(a.n)]):
            c, s = a.low[y, mo, q, h]
            if folder == 'oblateness': ctx.eq(float(w[1]), c[2, 0], 'oblateness', tol=2e-8, scale=1e-8)
            else:
                # millimetres
                k = 6.37100079e9 * np.sqrt(3)
                for j, v in enumerate((c[1, 1], s[1, 1], c[1, 0])): ctx.eq(float(w[1 + j]), k * v, 'coordinate ' + 'XYZ'[j], tol=1e-8, scale=1)
    # kept until the data are newer
    y, mo, days = pairs[0]; p = out / f'AOD1B_{rel}_{dset}_{y:4d}_{mo:02d}.txt'; good = p.read_text(); p.write_text('kept')
    fn(d, DREL=rel, DSET=dset); ctx.check(p.read_text() == 'kept', 'up to date')
    if r.random() < 0.5: fn(d, DREL=rel, DSET=dset, CLOBBER=True)
    else:
        os.utime(p, (9e8, 9e8)); fn(d, DREL=rel, DSET=dset)
    ctx.check(p.read_text() == good, 'written again')

@contract('geocenter of the dealiasing data', S + 'aod1b_geocenter.aod1b_geocenter', symbolic=False, samples=3, bounded='drawn months of release 5 (two days each) and of release 6 (one day)')
def geocenter_series(ctx):
    if ctx.rng.random() < 0.6: series(ctx, aod1b_geocenter, 'geocenter', 'RL05', 2)
    else: series(ctx, aod1b_geocenter, 'geocenter', 'RL06', 1)

@contract('oblateness of the dealiasing data', S + 'aod1b_oblateness.aod1b_oblateness', symbolic=False, samples=3, bounded='drawn months of release 5 (two days each) and of release 6 (one day)')
def oblateness_series(ctx):
    if ctx.rng.random() < 0.4: series(ctx, aod1b_oblateness, 'oblateness', 'RL05', 2)
    else: series(ctx, aod1b_oblateness, 'oblateness', 'RL06', 1)

def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
def day_of(y, n):
    """month and day of a day of the year"""
    for m, k in enumerate([31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]):
        if n <= k: return m + 1, n
        n -= k
PRODUCTS = {'GAA': 'atm', 'GAB': 'ocn', 'GAC': 'glo', 'GAD': 'oba'}

@contract('monthly means of the dealiasing data', S + 'dealiasing_monthly_mean.dealiasing_monthly_mean', symbolic=False, samples=4, bounded='drawn periods of 1 to 3 days (some across the turn of a month or year), every format and product')
def dealiased(ctx):
    r = ctx.rng; d = pathlib.Path(ctx.tmpdir()); rel = 'RL05' if r.random() < 0.8 else 'RL06'; prod = r.choice(list(PRODUCTS)); proc = r.choice(['CSR', 'GFZ', 'JPL'])
    a = Dealiasing(r, d / 'AOD1B' / rel, rel, PRODUCTS[prod])
    # periods of consecutive months
    n = r.randint(1, 3) if rel == 'RL05' else 1; periods = []; k = r.randrange(0, 230); used = {}
    turn = r.random() < 0.5
    for i in range(n):
        y, mo = 2002 + (k + i) // 12, (k + i) % 12 + 1
        if turn and i == 0: y, mo = r.randint(2002, 2020), r.choice([12, 12, 2, 6]); k = (y - 2002) * 12 + mo - 1
        ndays = r.randint(1, 3); jan1 = sum([31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][:mo - 1])
        last = [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]
        s = jan1 + (last if turn and i == 0 else r.randint(4, 25)); ys, ds = y, s; days = []
        for q in range(ndays):
            ye, de = (y, s + q) if s + q <= 365 + leap(y) else (y + 1, s + q - 365 - leap(y))
            days.append((ye,) + day_of(ye, de))
        if any(x in used.get(x[:2], ()) for x in days): continue
        periods.append((ys, ds, ye, de, k + i + 1, days))
        for x in days: used.setdefault(x[:2], []).append(x)
    missing = periods[-1][5][-1] if len(periods) > 1 and r.random() < 0.4 else None
    for (y, mo), x in used.items():
        # the files of the month also hold days of no period
        z = sorted({q[2] for q in x if q != missing} | ({28} if r.random() < 0.3 and (y, mo, 28) not in x else set()))
        if z: a.month(y, mo, z)
    grace = d / proc / rel; (grace / 'GSM').mkdir(parents=True)
    t = [round(ys + (ds + 0.5) / 365.25, 6) for ys, ds, *_ in periods]
    (grace / 'GSM' / f'{proc}_{rel}_DATES.txt').write_text('header\n' + ''.join(f'{q:13.8f} {p[4]:03d} {p[0]:8.0f} {p[1]:03d} {p[2]:8.0f} {p[3]:03d} {len(p[5]):8.0f}\n' for q, p in zip(t, periods)))
    fmt = r.choice(['ascii', 'netCDF4', 'HDF5', 'SHM']); L = r.choice([None, 6, 12, 8]); lmax = L or a.L
    run = lambda **kw: dealiasing_monthly_mean(d, PROC=proc, DREL=rel, DSET=prod, LMAX=L, DATAFORM=fmt, **kw)
    run()
    center = {'CSR': 'UTCSR', 'JPL': 'JPLEM', 'GFZ': 'EIGEN' if rel == 'RL05' else 'GFZOP'}[proc]
    name = lambda p: f'{prod}-2_{p[0]:04d}{p[1]:03d}-{p[2]:04d}{p[3]:03d}_{"GRAC" if p[4] <= 186 else "GRFO"}_{center}_BC01_{rel[2:]}00.gz' if fmt == 'SHM' else f'{proc}_{rel}_{prod}_CLM_L{lmax}_{p[4]:03d}.{dict(ascii="txt", netCDF4="nc", HDF5="H5")[fmt]}'
    whole = [(q, p) for q, p in zip(t, periods) if missing not in p[5]]
    log = f'{proc}_{rel}_DATES.txt'
    ctx.check(sorted(os.listdir(grace / prod)) == sorted([name(p) for _, p in whole] + [log] + (['index.txt'] if fmt == 'SHM' else [])), 'one file per complete month')
    rows = [x.split() for x in (grace / prod / log).read_text().splitlines()[1:]]
    ctx.check([[int(x) for x in w[1:]] for w in rows] == [[p[4], p[0], p[1], p[2], p[3], len(p[5])] for _, p in whole], 'dates of the complete months')
    for w, (q, p) in zip(rows, whole): ctx.eq(float(w[0]), q, 'mid-dates of the complete months', tol=3e-12, scale=1)
    if fmt == 'SHM': ctx.check((grace / prod / 'index.txt').read_text().split() == sorted(name(p) for _, p in whole), 'index')
    for _, p in whole:
        f = grace / prod / name(p); x = [v for key, v in a.low.items() if key[:3] in p[5]]
        ctx.check(len(x) == a.n * len(p[5]), 'hours of the month')
        e = [np.zeros((lmax + 1, lmax + 1)) for _ in range(2)]; k8 = min(a.at, lmax + 1)
        for j in range(2): e[j][:k8, :k8] = np.mean([v[j] for v in x], axis=0)[:k8, :k8]
        if fmt == 'SHM':
            C, T = np.zeros((2, lmax + 1, lmax + 1)); text = gzip.open(f, 'rt').read(); nl = 0
            for w in text.split('# End of YAML header')[1].split('\n'):
                w = w.split()
                if w:
                    i, j = int(w[1]), int(w[2]); C[i, j], T[i, j] = float(w[3]), float(w[4]); nl += 1
                    ctx.check(w[0] == 'GRCOF2' and w[7] == '%04d%02d%02d.0000' % p[5][0] and w[8] == '%04d%02d%02d.0000' % p[5][-1], 'dates of a line')
            ctx.check(nl == (lmax + 1) * (lmax + 2) // 2, 'one line per coefficient')
            ctx.check('time_coverage_start   : %04d-%02d-%02d\n' % p[5][0] in text and 'time_coverage_end     : %04d-%02d-%02d\n' % p[5][-1] in text, 'period')
        else:
            Y = gravtk.harmonics().from_file(f, format=fmt); C, T = Y.clm, Y.slm
            ctx.check(int(Y.month) == p[4], 'month')
            days = [yy + (sum([31, 29 if leap(yy) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][:mm - 1]) + dd - 1 + h / a.n) / (365 + leap(yy)) for yy, mm, dd in p[5] for h in range(a.n)]
            ctx.eq(Y.time, float(np.mean(days)), 'date', tol=1.3e-8 if fmt == 'ascii' else 1e-13, scale=1)
        ctx.check(C.shape == (lmax + 1, lmax + 1), 'degree and order')
        ctx.eq(C, e[0], 'cosine coefficients', tol=1e-8, scale=1e-8); ctx.eq(T, e[1], 'sine coefficients', tol=1e-8, scale=1e-8)
    if whole and rel == 'RL05':
        f = grace / prod / name(whole[0][1]); good = f.read_bytes(); f.write_bytes(b'kept')
        run(); ctx.check(f.read_bytes() == b'kept', 'up to date')
        if r.random() < 0.5: run(CLOBBER=True)
        else:
            os.utime(f, (9e8, 9e8)); run()
        ctx.check(f.read_bytes() != b'kept' and abs(len(f.read_bytes()) - len(good)) < 0.2 * len(good), 'written again')

# ------------------------------------------------------------------------------ the computations of the programs, whatever the files hold
from gravity_toolkit.harmonics import harmonics
from gravity_toolkit.units import units as earth_units
from contracts.common import legendre_callee, gauss_callee, R
from contracts.c16 import Love
PI = np.pi
H = 'gravity_toolkit.harmonics'

class Earth(Love):
    """load Love numbers of a model"""
    model = 'a model'; citation = 'a citation'; reference = 'CF'

class Given(harmonics):
    """stands in for a file (properties C08 and C13): a copy of the harmonics given"""
    files = None
    def from_file(self, filename, format=None, date=True, **kw):
        Given.asked.append((str(filename), format, date))
        Y = Given.files[os.path.basename(str(filename))].copy(); Y.filename = pathlib.Path(filename)
        return Y

class Captured(gravtk.spatial):
    """stands in for a file of a grid: the grid written"""
    def to_file(self, filename, format=None, date=True, **kw):
        Captured.written.append((str(filename), format, date, self, kw)); open(filename, 'w').close()

def any_filter(ctx, shape):
    """any filter of single coefficients stands in for destriping (property C19): what the program sees of it"""
    a = [ctx.arr('filter %d' % k, shape) for k in range(4)]; u = [ctx.snap(x) for x in a]
    return (lambda c, s, **k: dict(clm=c * a[0] + a[1], slm=s * a[2] + a[3])), (lambda k, l, m, x: u[2 * k][l, m] * x + u[2 * k + 1][l, m])

# order, months, mean, units, smoothed, interval, destriped
CASES = [(None, 1, False, 1, False, 1, False), ('given', 2, False, 2, True, 2, False), (None, 2, True, 3, True, 3, False), ('given', 1, False, 4, False, 2, False), (None, 1, True, 5, True, 1, False), ('given', 1, False, 1, True, 3, False), (None, 2, True, 1, False, 2, True), ('given', 1, False, 2, True, 1, True)]
@contract('combined grids are the filtered, scaled sums of the coefficients', S + 'combine_harmonics.combine_harmonics', samples=60, budget=200)
def summed(ctx):
    F = legendre_callee(ctx); W = gauss_callee(ctx)
    d = pathlib.Path(ctx.tmpdir())
    L0 = ctx.int('lmax of the file', 1, draw=(1, 6)); L = ctx.int('LMAX', 1, draw=(1, 6)); ctx.assume(L <= L0)
    order, nt, mean, unit, rad, iv, filt = ctx.choice('case', CASES if ctx.symbolic else [(o, n, e and o is None, u, w, v, x) for x in (False, True) for o in (None, 'given') for n in (1, 2) for e in (False, True) for u in (1, 2, 3, 4, 5) for w in (False, True) for v in (1, 2, 3)])
    M = ctx.int('MMAX', 0, draw=(0, 6)); ctx.assume(M <= L)
    m1 = L if order is None else M
    t = ctx.arr('time', (nt,), draw=(2002.0, 2020.0)); mon = ctx.arr('month', (nt,), kind='i', draw=(4, 200))
    def ylms(n, x, k):
        Y = harmonics(lmax=n, mmax=n); shape = (n + 1, n + 1) if k is None else (n + 1, n + 1, k)
        Y.clm = ctx.arr('clm' + x, shape); Y.slm = ctx.arr('slm' + x, shape); Y.time = t; Y.month = mon
        return Y
    Y = ylms(L0, '', nt); C, T = ctx.snap(Y.clm), ctx.snap(Y.slm); Given.files = {'in': Y}; Given.asked = []; Captured.written = []
    kw = {}
    if mean:
        A = ylms(L, ' of the mean', None); Given.files['mean'] = A; kw['MEAN_FILE'] = d / 'mean'
        mc, ms = ctx.snap(A.clm), ctx.snap(A.slm)
    hw = ctx.real('radius', lo=1, hi=5000, draw=(100.0, 800.0)) if rad else 0
    E = Earth(ctx.arr('hl', (L + 1,), lo=-3, hi=ctx.lit('0.9')), ctx.arr('kl', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')), ctx.arr('ll', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')))
    f = earth_units(lmax=L).harmonic(*E).get(['', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar'][unit]); f = ctx.snap(f)
    nlon = ctx.int('nlon', 2, draw=(2, 9)); nlat = ctx.int('nlat', 2, draw=(2, 9))
    ctx.hint(nlon, nlat, -nlon, -nlat)
    # (spacings whose multiples are floating-point numbers)
    if not ctx.symbolic: ctx.assume(all(n - (iv == 1) not in (7,) for n in (nlon, nlat)) or iv == 3)
    if iv == 1: dx, dy, x0, y0 = 360 / (nlon - 1), 180 / (nlat - 1), 0, 90
    elif iv == 2: dx, dy = 360 / nlon, 180 / nlat; x0, y0 = dx / 2, 90 - dy / 2
    else:
        dx, dy = ctx.real('dlon', lo=ctx.lit('0.01'), draw=(0.5, 20.0)), ctx.real('dlat', lo=ctx.lit('0.01'), draw=(0.5, 10.0)); w, n = ctx.real('west', lo=-360, hi=360, draw=(-180.0, 180.0)), ctx.real('north', lo=-90, hi=90, draw=(0.0, 90.0))
        if not ctx.symbolic: dx, dy, w, n = (np.ceil(16 * v) / 16 for v in (dx, dy, w, n))
        x0, y0 = w + dx / 2, n - dy / 2; kw['BOUNDS'] = [w, w + nlon * dx, n - nlat * dy, n]
    D = (any_filter(ctx, (L + 1, m1 + 1)) if filt else (None, lambda k, l, m, x: x))
    with Patched(ctx, {**({('gravity_toolkit.harmonics', 'destripe_harmonics'): D[0]} if filt else {}), ('gravity_toolkit', 'harmonics'): Given, ('gravity_toolkit', 'spatial'): Captured, ('gravity_toolkit', 'load_love_numbers'): lambda *a, **k: E}):
        combine_harmonics(d / 'in', d / 'out', LMAX=L, MMAX=None if order is None else M, LOVE_NUMBERS=0, REFERENCE='CF', RAD=hw, DESTRIPE=filt, UNITS=unit, DDEG=[dx, dy], INTERVAL=iv, DATAFORM='netCDF4', DATE=True, **kw)
    ctx.check([os.path.basename(a[0]) for a in Given.asked] == ['in'] + ['mean'] * mean and all(a[1] == 'netCDF4' for a in Given.asked), 'files read')
    (name, fmt, date, g, k), = Captured.written
    ctx.check(os.path.basename(name) == 'out' and fmt == 'netCDF4' and date, 'file written')
    ctx.shape(g.lon, (nlon,)); ctx.shape(g.lat, (nlat,)); ctx.shape(g.data, (nlat, nlon) if nt == 1 else (nlat, nlon, nt))
    ctx.forall(R(nlon), lambda j: ctx.eq(g.lon[j], x0 + j * dx, 'longitudes')); ctx.forall(R(nlat), lambda i: ctx.eq(g.lat[i], y0 - i * dy, 'latitudes'))
    P = F(L, lambda i: np.cos((90 - (y0 - i * dy)) * PI / 180), nlat); w = W(hw, L) if rad else None
    one = lambda l: f[l] * (2 * PI * w(l) if rad else 1)
    def value(i, j, q):
        c = lambda l, m: one(l) * D[1](0, l, m, C[l, m, q] - (mc[l, m] if mean else 0)); s = lambda l, m: one(l) * D[1](1, l, m, T[l, m, q] - (ms[l, m] if mean else 0))
        e = ctx.sum(0, m1 + 1, lambda m: np.cos(m * ((x0 + j * dx) * PI / 180)) * ctx.sum(0, L + 1, lambda l: P(l, m, i) * c(l, m))) + \
            ctx.sum(0, m1 + 1, lambda m: np.sin(m * ((x0 + j * dx) * PI / 180)) * ctx.sum(0, L + 1, lambda l: P(l, m, i) * s(l, m)))
        ctx.eq(g.data[i, j] if nt == 1 else g.data[i, j, q], e, 'sum of the coefficients', tol=1e-8, scale=1e9)
    for q in range(nt): ctx.forall(R(nlat, nlon), lambda i, j: value(i, j, q))
    for q in range(nt):
        ctx.eq(np.atleast_1d(g.time)[q], t[q], 'dates', tol=0); ctx.eq(np.atleast_1d(g.month)[q], mon[q], 'months', tol=0)

class GivenGrid(gravtk.spatial):
    """stands in for a file of a grid: a copy of the grid given"""
    def from_netCDF4(self, filename, date=True, **kw):
        GivenGrid.asked.append((str(filename), date)); return GivenGrid.grid.copy()

class Written(harmonics):
    """stands in for a file of harmonics: the harmonics written"""
    def to_file(self, filename, format=None, date=True, **kw):
        Written.written.append((str(filename), format, date, self)); open(filename, 'w').close()

@contract('converted harmonics are the weighted sums of the valid cells', S + 'convert_harmonics.convert_harmonics', samples=60, budget=200)
def weighted(ctx):
    F = legendre_callee(ctx); d = pathlib.Path(ctx.tmpdir())
    order, nt, unit, iv = ctx.choice('case', [(None, 1, 1, 1), ('given', 2, 2, 2), (None, 2, 3, 1), ('given', 1, 1, 2)] if ctx.symbolic else [(o, n, u, v) for o in (None, 'given') for n in (1, 2) for u in (1, 2, 3) for v in (1, 2)])
    L = ctx.int('LMAX', 1, draw=(1, 6)); M = ctx.int('MMAX', 0, draw=(0, 6)); ctx.assume(M <= L); m1 = L if order is None else M
    nlon = ctx.int('nlon', 2, draw=(2, 9)); nlat = ctx.int('nlat', 2, draw=(2, 9))
    if iv == 1: dx, dy, x0, y0 = 360 / (nlon - 1), 180 / (nlat - 1), 0, 90
    else: dx, dy = 360 / nlon, 180 / nlat; x0, y0 = dx / 2, 90 - dy / 2
    lon, lat = x0 + dx * np.arange(nlon), y0 - dy * np.arange(nlat)
    g = gravtk.spatial(fill_value=-9999.0); shape = (nlat, nlon) if nt == 1 else (nlat, nlon, nt)
    g.lon, g.lat = lon, lat; g.data = ctx.arr('data', shape); g.mask = ctx.arr('mask', shape, kind='b'); t0 = ctx.real('time', lo=2002, hi=2050, draw=(2002.0, 2020.0)); t = t0 + np.arange(nt) / ctx.lit('8.0')
    old, mask = ctx.snap(g.data), ctx.snap(g.mask); mon = 12 + np.arange(nt)
    g.time, g.month = (t, mon) if nt > 1 else (t[0], mon[0])
    kl = ctx.arr('kl', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')); E = Earth(ctx.arr('hl', (L + 1,)), kl, ctx.arr('ll', (L + 1,)))
    GivenGrid.grid = g; GivenGrid.asked = []; Written.written = []; date = ctx.choice('dates', [True, False]) if not ctx.symbolic else False
    with Patched(ctx, {('gravity_toolkit', 'harmonics'): Written, ('gravity_toolkit', 'spatial'): GivenGrid, ('gravity_toolkit', 'load_love_numbers'): lambda *a, **k: E}):
        convert_harmonics(d / 'in', d / 'out', LMAX=L, MMAX=None if order is None else M, UNITS=unit, LOVE_NUMBERS=0, REFERENCE='CF', DDEG=[dx, dy], INTERVAL=iv, DATAFORM='netCDF4', DATE=date)
    (name, fmt, wd, Y), = Written.written
    ctx.check(os.path.basename(name) == 'out' and fmt == 'netCDF4' and wd == date and [(os.path.basename(a), b) for a, b in GivenGrid.asked] == [('in', date)], 'files')
    a = earth_units(lmax=L); rho, rad = a.rho_e, a.rad_e; c = 10 if unit == 3 else 1
    P = F(L, lambda i: np.cos((90 - lat[i]) * PI / 180), nlat)
    cell = abs(lon[1] - lon[0]) * PI / 180 * (abs(lat[1] - lat[0]) * PI / 180)
    w = (lambda i: ctx.lit('1e15') / (rad * rad)) if unit == 2 else (lambda i: np.sin((90 - lat[i]) * PI / 180) * cell)
    f = lambda l: 3 * (1 + kl[l]) / (4 * PI * rad * rho * (2 * l + 1)) / c
    three = (L + 1, m1 + 1) if nt == 1 else (L + 1, m1 + 1, nt)
    ctx.shape(Y.clm, three); ctx.shape(Y.slm, three)
    for q in range(nt):
        def v(i, j, q=q):
            at = (i, j) if nt == 1 else (i, j, q)
            # cells with the fill value are invalid as well
            return ctx.ite(mask[at] | (old[at] == -9999.0), 0, old[at])
        for k, trig in (('clm', np.cos), ('slm', np.sin)):
            def one(l, m, k=k, trig=trig):
                e = f(l) * ctx.sum(0, nlat, lambda i: P(l, m, i) * w(i) * ctx.sum(0, nlon, lambda j: trig(m * lon[j] * PI / 180) * v(i, j)))
                A = getattr(Y, k); x = A[l, m] if nt == 1 else A[l, m, q]
                ctx.when(m <= l, lambda: ctx.eq(x, e, k + ' weighted sum', tol=1e-9, scale=1e-9))
                ctx.when(m > l, lambda: ctx.eq(x, 0, k + ' outside the range', tol=0))
            ctx.forall(R(L + 1, m1 + 1), one)
        if date: ctx.eq(np.atleast_1d(Y.time)[q], t[q], 'dates', tol=0)

import scripts.grace_mean_harmonics as program
class WrittenMean(program.mean):
    def to_file(self, filename, format=None, date=True, **kw):
        WrittenMean.written.append((str(filename), format, date, self)); open(filename, 'w').close()

@contract('means are those of the coefficients, their errors the root mean squares', S + 'grace_mean_harmonics.grace_mean_harmonics', samples=40, budget=200)
def averaged(ctx):
    d = pathlib.Path(ctx.tmpdir()); WrittenMean.written = []
    L = ctx.int('LMAX', 1, draw=(1, 6)); nt = ctx.int('months', 1, draw=(1, 6)); k = (L + 1, L + 1, nt)
    x = {n: ctx.arr(n, k) for n in ('clm', 'slm', 'eclm', 'eslm')}; old = {n: ctx.snap(v) for n, v in x.items()}
    t = ctx.arr('time', (nt,), draw=(2002.0, 2020.0)); mon = ctx.arr('month', (nt,), kind='i', draw=(4, 200))
    months = lambda *a, **kw: dict(x, time=t, month=mon, l=np.arange(L + 1), m=np.arange(L + 1), title='', directory=d, attributes={})
    with Patched(ctx, {('gravity_toolkit', 'grace_input_months'): months, (S + 'grace_mean_harmonics', 'mean'): WrittenMean}):
        grace_mean_harmonics(d, 'CSR', 'RL06', 'GSM', L, START=4, END=10, MISSING=[], MEAN_FILE=d / 'mean', MEANFORM='netCDF4')
    (name, fmt, date, Y), = WrittenMean.written
    ctx.check(os.path.basename(name) == 'mean' and fmt == 'netCDF4', 'file')
    def one(l, m):
        for n in ('clm', 'slm'): ctx.eq(getattr(Y, n)[l, m] * nt, ctx.sum(0, nt, lambda q: old[n][l, m, q]), n + ' mean')
        for n in ('eclm', 'eslm'):
            e = getattr(Y, n)[l, m]; ctx.check(e >= 0, n + ' positive')
            ctx.eq(e * e * nt, ctx.sum(0, nt, lambda q: old[n][l, m, q] ** 2), n + ' root mean square')
    ctx.forall(R(L + 1, L + 1), lambda l, m: ctx.when(m <= l, lambda: one(l, m)))
    ctx.eq(Y.time * nt, ctx.sum(0, nt, lambda q: t[q]), 'date'); ctx.eq(Y.month * nt, ctx.sum(0, nt, lambda q: mon[q]), 'month')
