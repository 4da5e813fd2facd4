import os, pathlib
import numpy as np
import gravity_toolkit as gravtk
from dv.ctx import contract
from contracts.c26 import Patched
from contracts.c29 import FORMATS, ENDING, dates, field
from contracts.c30 import GIA, Run, TIDES, UNITS, destriped, grid_of, grids, landmask, values, ylms
from scripts.calc_degree_one import calc_degree_one
from scripts.grace_spatial_error import grace_spatial_error
from scripts.piecewise_grace_maps import piecewise_grace_maps
from scripts.run_sea_level_equation import run_sea_level_equation
S = 'scripts.'

# ------------------------------------------------------------------------------ maps of errors
@contract('maps of the errors of the harmonics', S + 'grace_spatial_error.grace_spatial_error', symbolic=False, samples=50, bounded='drawn months and options of degrees to 8, every format and unit')
def errors(ctx):
    r = ctx.rng; given = r.random() < 0.7; R = Run(ctx, r.randint(2, 4) if given else r.randint(13, 15)); d, L, m, nt = R.d, R.L, R.m, R.nt
    iv = r.choice([1, 2, 3]); dlon, dlat, lon, lat = grids(r, iv); unit = r.choice([1, 2, 3, 4, 5]); u = UNITS[unit]; lmin = r.randint(0, min(2, m)); ATM = R.corrections['ATM']; prefix = r.choice([None, 'mine_'])
    if len(lat) < 2: return
    delta = R.directory / ('CSR_RL06_GSM_DELTA_CLM_L%d%s%s%s_%03d-%03d.%s' % (L, R.order, '_FL' if R.destripe else '', '_wATM' if ATM else '', R.mon[0], R.mon[-1], ENDING[R.fmt][1:]))
    if given:
        e = [np.abs(x[:, :, 0]) * 0.01 for x in field(r, L + r.randint(0, 1), 1)]; ns = r.randint(10, 40); ylms(*e, 2010.0, ns).to_file(delta, format=R.fmt); e = [x[:L + 1, :m + 1] for x in e]
        if R.fmt == 'ascii': ns = int(gravtk.harmonics().from_ascii(delta).month)
    else:
        e = [np.zeros((L + 1, m + 1)) for _ in range(2)]; ns = nt - 12
        for a, b in zip(e, R.before):
            for i in range(L + 1):
                for j in range(min(i, m) + 1): q = gravtk.time_series.smooth(R.t, b[i, j], HFWTH=6); a[i, j] = np.sqrt(np.sum(q['noise']**2) / len(q['data']))
    kw = dict({k: R.kw[k] for k in R.kw if k not in ('GIA', 'GIA_FILE', 'REDISTRIBUTE_REMOVED', 'LANDMASK', 'REMOVE_FILES', 'REMOVE_FORMAT')}, **R.months, **R.corrections)
    if iv == 3: kw['BOUNDS'] = [float(lon[0] - dlon / 2), float(lon[-1] + dlon / 2), float(lat[-1] - dlat / 2), float(lat[0] + dlat / 2)]
    with R.patched(ctx): out = grace_spatial_error(d, 'CSR', 'RL06', 'GSM', L, R.RAD, LMIN=lmin, UNITS=unit, DDEG=[dlon, dlat] if dlon != dlat or r.random() < 0.5 else [dlon], INTERVAL=iv, OUTPUT_DIRECTORY=d / 'maps', FILE_PREFIX=prefix, **kw)
    (a, k), = R.asked
    ctx.check(tuple(a[:7]) == ('CSR', 'RL06', 'GSM', L, R.months['START'], R.months['END'], R.months['MISSING']) and all(dict(k, SLR_C20=a[7], DEG1=a[8])[n] == v for n, v in R.corrections.items()) and int(k['MMAX']) == m, 'months and corrections asked for')
    name = '%s%s_L%d%s%s%s_ERR_%03d-%03d.%s' % (prefix or 'CSR_RL06_GSM%s_' % R.title, u, L, R.order, R.radius, '_FL' if R.destripe else '', R.mon[0], R.mon[-1], ENDING[R.fmt][1:])
    ctx.check([p for p in out if p != delta] == [d / 'maps' / name] and (given or delta in out), 'files')
    w = gravtk.units(lmax=L).harmonic(*R.LOVE).get(u) * R.smooth
    P, _ = gravtk.plm_holmes(L, np.cos(np.radians(90 - lat))); P = (P[:, :m + 1] * (w * (np.arange(L + 1) >= lmin))[:, None, None])**2; mm = np.arange(m + 1)[:, None] * np.radians(lon)[None, :]
    D = np.sqrt((np.einsum('lmi,lm,mj->ij', P, e[0]**2, np.cos(mm)**2) + np.einsum('lmi,lm,mj->ij', P, e[1]**2, np.sin(mm)**2)) / ns)
    g = grid_of(d / 'maps' / name, R.fmt, lon, lat, dlon, dlat, date=False); sc = float(D.max()) + 1e-30
    ctx.eq(np.squeeze(g.data), D, 'errors', tol=1e-6 if R.fmt == 'ascii' or not given else 1e-9, scale=sc + (70 if R.fmt == 'ascii' else 0))
    ctx.eq(g.lon, lon, 'longitudes', tol=1e-9, scale=1); ctx.eq(g.lat, lat, 'latitudes', tol=1e-9, scale=1)
    y = gravtk.harmonics().from_file(delta, format=R.fmt)
    for a, b in ((y.clm, e[0]), (y.slm, e[1])): ctx.eq(np.squeeze(a)[:L + 1, :m + 1], b, 'errors of the harmonics', tol=1e-6, scale=float(np.abs(e[0]).max()) + 1e-30)

# ------------------------------------------------------------------------------ sea level
@contract('sea level fingerprints of files', S + 'run_sea_level_equation.run_sea_level_equation', symbolic=False, samples=24, bounded='drawn loads of degrees to 8 and land masks, every format and option')
def fingerprints(ctx):
    import netCDF4
    r = ctx.rng; d = pathlib.Path(ctx.tmpdir()); fmt = r.choice(FORMATS); date = r.random() < 0.6; L = r.randint(2, 8); nt = 1 if fmt == 'ascii' or not date else r.randint(1, 3)
    q = r.choice([10.0, 18.0]); lon, lat = q / 2 + q * np.arange(round(360 / q)), 90 - q / 2 - q * np.arange(round(180 / q))
    land = np.array([r.choice([0, 0, 1, 2, 3, 4]) for _ in range(len(lat) * len(lon))]).reshape(len(lat), len(lon)); mask = d / 'land.nc'
    with netCDF4.Dataset(mask, 'w') as f:
        f.createDimension('lat', len(lat)); f.createDimension('lon', len(lon)); f.createVariable('lat', 'f8', ('lat',))[:] = lat; f.createVariable('lon', 'f8', ('lon',))[:] = lon; f.createVariable('LSMASK', 'i1', ('lat', 'lon'))[:] = land
    c, s = field(r, L + r.randint(0, 2), nt); t, mon = dates(r, nt); src, dst = d / ('in' + ENDING[fmt]), d / ('out' + ENDING[fmt])
    if not date: ylms(c[:, :, 0], s[:, :, 0]).to_file(src, format=fmt, date=False)
    elif nt == 1: ylms(c[:, :, 0], s[:, :, 0], t[0], mon[0]).to_file(src, format=fmt)
    else: ylms(c, s, t, mon).to_file(src, format=fmt)
    o = dict(BODY_TIDE_LOVE=r.choice([0, 1]), FLUID_LOVE=r.choice([0, 1, 2, 3]), ITERATIONS=r.choice([0, 1, 3, 6]), POLAR=r.random() < 0.5); n, ref = r.choice([0, 1, 2, 3]), r.choice(['CF', 'CE'])
    run_sea_level_equation(src, dst, LANDMASK=mask, LMAX=L, LOVE_NUMBERS=n, REFERENCE=ref, DATAFORM=fmt, DATE=date, **o)
    LOVE = gravtk.load_love_numbers(L, LOVE_NUMBERS=n, REFERENCE=ref, FORMAT='class'); F = ((land >= 1) & (land <= 3)).astype(float)
    if fmt == 'ascii': y = gravtk.harmonics().from_ascii(src, date=date); c, s = np.squeeze(y.clm)[:, :, None], np.squeeze(y.slm)[:, :, None]
    e = np.stack([gravtk.sea_level_equation(c[:L + 1, :L + 1, k], s[:L + 1, :L + 1, k], lon, lat, F.T, LMAX=L, LOVE=LOVE, FILL_VALUE=0, **o).T for k in range(nt)], axis=2)
    sc = float(np.abs(e).max()) + 1e-30
    if fmt == 'ascii':
        rows = np.array([[float(x) for x in q.split()] for q in dst.read_text().splitlines()]); z = np.squeeze(e) != 0
        ctx.check(len(rows) == z.sum(), 'cells of the ocean'); i = np.round((90 - q / 2 - rows[:, 1]) / q).astype(int); j = np.round((rows[:, 0] - q / 2) / q).astype(int)
        ctx.check(np.all(z[i, j]) and len(set(zip(i, j))) == len(i), 'cells of the ocean'); ctx.eq(rows[:, 2], e[i, j, 0], 'sea level', tol=1e-6, scale=sc + 60)
        if date: ctx.eq(rows[:, 3], np.full(len(rows), t[0]), 'dates', tol=1.3e-8 * 2, scale=1)
        return
    g = gravtk.spatial().from_file(dst, format=fmt, date=date)
    ctx.eq(np.squeeze(g.data), np.squeeze(e), 'sea level', tol=1e-9, scale=sc); ctx.eq(g.lon, lon, 'longitudes', tol=1e-12, scale=1); ctx.eq(g.lat, lat, 'latitudes', tol=1e-12, scale=1)
    if date: ctx.eq(np.atleast_1d(g.time), t, 'dates', tol=1e-13, scale=1)
    ctx.check(int(g.attributes['ROOT']['max_degree']) == L and int(g.attributes['ROOT']['iterations']) == o['ITERATIONS'] and str(g.attributes['ROOT']['earth_model']) == LOVE.model, 'attributes')

# ------------------------------------------------------------------------------ piecewise regression of maps
@contract('maps of the terms of a piecewise regression', S + 'piecewise_grace_maps.piecewise_grace_maps', symbolic=False, samples=40, bounded='drawn months, grids and terms, every format and unit')
def piecewise(ctx):
    r = ctx.rng; d = pathlib.Path(ctx.tmpdir()); fmt = r.choice(FORMATS); iv = r.choice([1, 2, 3]); dlon, dlat = r.choice([60.0, 90.0, 45.0]), r.choice([60.0, 45.0, 90.0])
    if iv == 1: lon, lat = -180 + dlon * np.arange(round(360 / dlon) + 1), 90 - dlat * np.arange(round(180 / dlat) + 1)
    elif iv == 2: lon, lat = -180 + dlon / 2 + dlon * np.arange(round(360 / dlon)), 90 - dlat / 2 - dlat * np.arange(round(180 / dlat))
    else: x0, y0 = r.choice([-180.0, -40.0, 0.0]), r.choice([-90.0, -45.0, 0.0]); lon, lat = x0 + dlon / 2 + dlon * np.arange(r.randint(2, 3)), y0 + dlat * 1.5 - dlat * np.arange(2)
    if lat.max() > 90: return
    nt = r.randint(30, 36); k0 = r.choice([4, 180, 190]); mon = np.array(sorted(r.sample(range(k0, k0 + nt + 8), nt))); t = np.array([2002 + (k - 0.5) / 12 + r.uniform(-0.02, 0.02) for k in mon])
    missing = sorted(set(range(mon[0], mon[-1] + 1)) - set(mon)); missing += [1000] if r.random() < 0.5 else []
    unit = r.choice([1, 2, 3, 4, 5]); u = UNITS[unit]; L = r.randint(10, 60); M = r.choice([None, L, 8]); rad = r.choice([0, 300, 250.0]); fl = r.random() < 0.5
    tail = '_L%d%s%s%s_' % (L, 'M%d' % M if M not in (None, L) else '', '_r%.0fkm' % rad if rad else '', '_FL' if fl else '')
    f = np.array([round(r.uniform(-30, 30), 4) for _ in range(len(lat) * len(lon) * nt)]).reshape(len(lat), len(lon), nt)
    for i in range(nt):
        g = gravtk.spatial(fill_value=-9999.0); g.lon, g.lat, g.data, g.mask = lon.copy(), lat.copy(), f[:, :, i].copy(), np.zeros(f.shape[:2], dtype=bool); g.time, g.month = t[i], mon[i]
        g.to_file(d / ('pre_%s%s%03d.%s' % (u, tail, mon[i], ENDING[fmt][1:])), format=fmt)
    if fmt == 'ascii': t = np.array([float('%10.4f' % x) for x in t])
    tides = r.sample(sorted(TIDES), r.choice([0, 0, 1, 2])) if k0 == 180 or k0 == 190 else []
    if 'Q1' in tides and 'M2' in tides or not (t.min() < 2017.5 and t.max() > 2018.8): tides = []
    cycles = r.sample([0.5, 1.0], r.randint(0, 2)) + [TIDES[x] / 365.25 for x in tides]; which = dict(zip([TIDES[x] / 365.25 for x in tides], tides)); r.shuffle(cycles)
    kw = dict(BOUNDS=[float(lon[0] - dlon / 2), float(lon[-1] + dlon / 2), float(lat[-1] - dlat / 2), float(lat[0] + dlat / 2)]) if iv == 3 else {}
    kb = r.randint(8, nt - 9); B = int(mon[kb])
    names, columns, pairs = [], [t**0, t - t[kb], np.maximum(t - t[kb], 0)], []
    for c in cycles:
        for n, sel in ([(which[c] + 'GRC', t < 2018), (which[c] + 'GFO', t >= 2018)] if c in which else [({0.5: 'SEMI', 1.0: 'ANN'}[c], t > 0)]):
            pairs.append((n, len(columns))); a = 2 * np.pi * t / c; columns += [np.sin(a) * sel, np.cos(a) * sel]
            names += {'SEMI': ['SS', 'SC'], 'ANN': ['AS', 'AC']}.get(n) or [n[:2] + 'S' + n[2:], n[:2] + 'C' + n[2:]]
    X = np.array(columns).T; nu = nt - X.shape[1]
    if np.linalg.cond(X) > 1e3 or nu < 3: return
    out = piecewise_grace_maps(L, rad, START=int(mon[0]), END=int(mon[-1]), BREAKPOINT=B, MISSING=missing, MMAX=M, DESTRIPE=fl, UNITS=unit, DDEG=[dlon, dlat] if dlon != dlat or r.random() < 0.5 else [dlon], INTERVAL=iv, DATAFORM=fmt,
        CYCLES=cycles, OUTPUT_DIRECTORY=d, FILE_PREFIX='pre_', **kw)
    import scipy.stats
    y = f.reshape(-1, nt).T; beta = np.linalg.lstsq(X, y, rcond=None)[0]; res = y - X @ beta; sse = (res**2).sum(axis=0); H = np.linalg.inv(X.T @ X)
    # the constant of the program is at the date zero
    A = np.eye(len(columns)); A[0, 1] = -t[kb]; v = np.diag(A @ H @ A.T); b = A @ beta; err = scipy.stats.t.ppf(0.975, nu) * np.sqrt(v[:, None] * (sse / nu))
    b[2] = b[1] + b[2]; err[2] = np.hypot(err[1], err[2])
    full = '%03d-%03d' % (mon[0], mon[-1]); want = {'x0_' + full: (b[0], err[0]), 'px1_%03d-%03d' % (mon[0], B): (b[1], err[1]), 'px1_%03d-%03d' % (B, mon[-1]): (b[2], err[2])}
    for i, n in enumerate(names): want[n + '_' + full] = b[3 + i], err[3 + i]
    for n, i in pairs:
        p, q = b[i], b[i + 1]; R = np.hypot(p, q); want[n + '_' + full] = R, np.hypot(err[i] * p, err[i + 1] * q) / R; want[n + '_PHASE_' + full] = np.degrees(np.arctan2(q, p)) % 360, np.degrees(np.hypot(err[i] * q, err[i + 1] * p) / R**2)
    K = X.shape[1] + 1; like = -0.5 * nt * (np.log(2 * np.pi) + 1 - np.log(nt) + np.log(sse)); tot = ((y - y.mean(axis=0))**2).sum(axis=0)
    for n, x in dict(SSE=sse, AIC=2 * K - 2 * like, BIC=np.log(nt) * K - 2 * like, R2Adj=1 - sse / tot * (nt - 1) / nu).items(): want[n + '_px1_' + full] = x, None
    files = ['pre_%s%s%s.%s' % (u, tail, n, ENDING[fmt][1:]) for n in want]
    ctx.check(sorted(p.name for p in out) == sorted(files), 'files')
    for (n, (v, e)), p in zip(want.items(), files):
        v = v.reshape(len(lat), len(lon)); e = None if e is None else e.reshape(v.shape)
        if fmt == 'ascii':
            rows = [[float(x) for x in line.split()] for line in (d / p).read_text().splitlines()]; ctx.check(len(rows) == v.size, 'cells')
            cells = {(x[0], x[1]): x[2:] for x in rows}
            g = np.array([[cells[(a, b)][0] for a in lon] for b in lat]); h = None if e is None else np.array([[cells[(a, b)][1] for a in lon] for b in lat]); big = 60
        else:
            s = gravtk.spatial().from_file(d / p, format=fmt, date=False, field_mapping=dict(lon='lon', lat='lat', data='data', **({} if e is None else dict(error='error')))); big = 0
            ctx.eq(s.lon, lon, 'longitudes', tol=1e-9, scale=1); ctx.eq(s.lat, lat, 'latitudes', tol=1e-9, scale=1); g, h = np.squeeze(s.data), None if e is None else np.squeeze(s.error)
            ctx.check(not np.any(s.mask), 'valid cells')
        if 'PHASE' in n: z = abs(g - v); ctx.check(np.all(np.minimum(z, 360 - z) < 1e-3) and np.all(g >= 0) and np.all(g <= 360), 'phase')
        else: ctx.eq(g, v, 'map of ' + n.split('_')[0], tol=1e-6, scale=float(np.abs(v).max()) + big + n.startswith('R2'))
        # (the normal equations of the program are at dates since zero)
        if e is not None: ctx.eq(h, e, 'errors of ' + n.split('_')[0], tol=1e-2, scale=float(np.abs(e).max()))

# ------------------------------------------------------------------------------ degree one
def solid(lon, lat, L):
    """harmonics of degree up to L at the cells, and the solid angles of the cells over that of the sphere"""
    P, _ = gravtk.plm_holmes(L, np.cos(np.radians(90 - lat))); k = np.arange(L + 1)[:, None] * np.radians(lon)[None, :]
    a = np.abs(np.radians(lon[1] - lon[0]) * np.radians(lat[1] - lat[0])) * np.cos(np.radians(lat)) / (4 * np.pi)
    return np.einsum('lmi,mj->lmij', P, np.cos(k)), np.einsum('lmi,mj->lmij', P, np.sin(k)), np.repeat(a[:, None], len(lon), axis=1)

def seasonal(t):
    """annual and semiannual motion of the geocenter of Chen et al. (1999) [mm] as harmonics"""
    v = [A * np.sin(2 * np.pi * t + np.radians(p)) + B * np.sin(4 * np.pi * t + np.radians(q)) for A, p, B, q in ((3.30, 43, 0.50, 75), (1.28, 44, 0.15, 331), (0.52, 182, 0.56, 312))]
    a = 6371000.790009159e3
    return np.array([(x - x.mean()) / (a * np.sqrt(3)) for x in v])

@contract('degree one of the gravity field from its higher degrees and models of the ocean', S + 'calc_degree_one.calc_degree_one', symbolic=False, samples=40, bounded='2 to 5 drawn months of degrees to 8, every solver and option')
def degree_one(ctx):
    import netCDF4
    r = ctx.rng; d = pathlib.Path(ctx.tmpdir()); fl = r.random() < 0.25; L = r.randint(6, 8) if fl else r.randint(2, 7); M = r.choice([None, L]) if fl else r.choice([None, L, r.randint(1, L)]); m = L if M is None else M; X = L + r.randint(0, 2); nt = r.randint(2, 5)
    t, mon = dates(r, nt); cut = lambda x: (x[0][:, :m + 1].copy(), x[1][:, :m + 1].copy()); gsm, gad, gac = cut(field(r, L, nt)), field(r, L, nt), field(r, L, nt)
    for x in gsm: x[:2] = 0
    missing = [1000]; asked = []; opts = {k: r.choice([None, 'CSR', 'GSFC']) for k in ('SLR_C20', 'SLR_21', 'SLR_22', 'SLR_C30', 'SLR_C40', 'SLR_C50')}; pole = r.random() < 0.5
    def months(base, proc, rel, dset, lmax, start, end, miss, c20, deg1, MMAX=None, **k):
        asked.append((dset, proc, rel, lmax, start, end, miss, dict(k, SLR_C20=c20), deg1, MMAX)); c, s = dict(GSM=gsm, GAD=gad, GAC=gac)[dset]
        return dict(clm=c.copy(), slm=s.copy(), eclm=np.zeros_like(c), eslm=np.zeros_like(c), time=t.copy(), month=mon.copy(), l=np.arange(L + 1), m=np.arange(c.shape[1]), title='', directory=d, attributes={'lineage': ['%d' % i for i in range(nt)]})
    jump = r.random() < 0.4; J = field(r, L, nt, 1e-9)
    def corrections(base, lmax, month, MMAX=None, **k):
        ctx.check(lmax == L and list(month) == list(mon), 'corrections asked for'); n = L if MMAX is None else int(MMAX)
        return dict(clm=J[0][:, :n + 1].copy(), slm=J[1][:, :n + 1].copy())
    gia = r.choice([None, 'ICE6G']); GIA.rate = tuple(x[:, :, 0] * 0.05 for x in field(r, L, 1)); GIA.asked = []
    model = r.choice(['OMCT', 'MPIOM', 'ECCO_v5']); kw = {}; fmt = r.choice(FORMATS)
    if model == 'ECCO_v5':
        nb = r.randint(0, 2); om = np.concatenate([mon, mon[-1] + 1 + np.arange(nb)]); ot = np.concatenate([t, t[-1] + (1 + np.arange(nb)) / 12]); Lo = L + r.randint(0, 2); oc, os_ = field(r, Lo, len(om)); names = []
        for j in range(len(om)): p = d / ('obp_%03d%s' % (om[j], ENDING[fmt])); names.append(str(p)); ylms(oc[:, :, j], os_[:, :, j], ot[j], om[j]).to_file(p, format=fmt)
        (d / 'obp.txt').write_text('\n'.join(names) + '\n'); kw.update(MODEL_INDEX=d / 'obp.txt', DATAFORM=fmt)
    mean = r.random() < 0.4
    if mean: mf = r.choice(FORMATS); mc, ms = (x[:, :m + 1, 0].copy() for x in field(r, L, 1)); kw.update(MEAN_FILE=d / ('mean' + ENDING[mf]), MEANFORM=mf); ylms(mc, ms).to_file(kw['MEAN_FILE'], format=mf, date=False)
    rad = r.choice([0, 0, 300, 250.0]); it = r.random() < 0.5; sl = r.random() < 0.3; solver = r.choice(['inv', 'lstsq', 'gelsd', 'gelsy', 'gelss']); n = r.choice([0, 1, 2, 3]); k1 = r.choice([None, 0.021, 0.03]); copy = r.random() < 0.3
    mask = landmask(r, d / 'land.nc'); rel = r.choice(['RL05', 'RL06'])
    with Patched(ctx, {('gravity_toolkit', 'grace_input_months'): months, ('gravity_toolkit', 'gia'): GIA, ('gravity_toolkit', 'read_ecmwf_corrections'): corrections}):
        out, count = calc_degree_one(d, 'CSR', rel, model, L, rad, START=int(mon[0]), END=int(mon[-1]), MISSING=missing, MMAX=M, DESTRIPE=fl, LOVE_NUMBERS=n, LOVE_K1=k1, GIA=gia, GIA_FILE=d / 'gia.txt' if gia else None, ATM=jump, POLE_TIDE=pole,
            ITERATIVE=it, SOLVER=solver, FINGERPRINT=sl, EXPANSION=X, LANDMASK=mask, COPY=copy, **opts, **kw)
    ctx.check([a[0] for a in asked] == ['GSM', 'GAD', 'GAC'] and all(a[1:7] == ('CSR', rel, L, int(mon[0]), int(mon[-1]), missing) and a[8] == 0 for a in asked), 'months asked for')
    ctx.check(all(asked[0][7][k] == v for k, v in opts.items()) and asked[0][7]['POLE_TIDE'] == pole and not asked[0][7]['ATM'] and int(asked[0][9]) == m and all(a[7]['SLR_C20'] == 'N' and not a[7]['POLE_TIDE'] and not a[7]['ATM'] for a in asked[1:]), 'corrections asked for')
    # the fields of mass and the motions without the mean, drift and jumps
    centred = lambda x: x - x.mean(axis=-1, keepdims=True)
    LOVE = gravtk.load_love_numbers(X, LOVE_NUMBERS=n, REFERENCE='CF', FORMAT='class')
    if k1: LOVE.kl[1] = k1
    f = gravtk.units(lmax=L).harmonic(*LOVE); D = f.cmwe; w = 2 * np.pi * gravtk.gauss_weights(rad, L) if rad else np.ones(L + 1)
    c, s = (gsm[0] - mc[:, :, None], gsm[1] - ms[:, :, None]) if mean else map(centred, gsm)
    a, b = map(centred, gad); one = lambda c, s: np.array([c[1, 0], c[1, 1], s[1, 1]])
    if fl: c, s = destriped(c, s, t, mon); a, b = destriped(a, b, t, mon)
    drift = [g[:, :m + 1, None] * (t - 2003.3) * bool(gia) for g in GIA.rate]; jumps = [centred(x[:, :m + 1]) * jump for x in J]
    c, s = c - drift[0] - jumps[0], s - drift[1] - jumps[1]; moved = one(*drift) + one(*jumps)
    aod = one(*map(centred, gac)); ob = gd = centred(one(a, b) * f.rho_e * f.rad_e)
    if model == 'ECCO_v5':
        oc, os_ = oc[:L + 1, :m + 1, :nt], os_[:L + 1, :m + 1, :nt]
        if fl: oc, os_ = destriped(oc, os_, t, mon)
        ob = centred(one(oc, os_)) * D[1]
    with netCDF4.Dataset(mask) as g: z = np.array(g['LSMASK'][:]); lon, lat = np.array(g['lon'][:]), np.array(g['lat'][:])
    land = ((z >= 1) & (z <= 3)).astype(float); sea = 1 - land; A, B, area = solid(lon, lat, L); Y = np.array([A[1, 0], A[1, 1], B[1, 1]])
    if sea.sum() < 4: return
    heavy = lambda c, s, lo: np.einsum('l,lmij,lmt->ijt', (D * w)[lo:], A[lo:, :m + 1], c[lo:]) + np.einsum('l,lmij,lmt->ijt', (D * w)[lo:], B[lo:, :m + 1], s[lo:])
    I = np.einsum('aij,bij,ij->ab', Y, Y, sea * area); G = np.einsum('aij,ijt,ij->at', Y, heavy(c, s, 2), sea * area)
    if np.linalg.cond(I) > 1e4: return
    first = last = seasonal(t); every = []
    for i in range(15 if it else 1):
        q, p = c.copy(), s.copy(); v = last - moved; q[1, 0], q[1, 1], p[1, 1] = v; mass = heavy(q, p, 1) * land[:, :, None]
        if sl:
            E = []
            for k in range(nt):
                F = gravtk.gen_stokes(mass[:, :, k].T, lon, lat, UNITS=1, LMIN=0, LMAX=X, LOVE=LOVE)
                E.append(np.einsum('aij,ij->a', Y, area * gravtk.sea_level_equation(F.clm, F.slm, lon, lat, land.T, LMAX=X, LOVE=LOVE, BODY_TIDE_LOVE=0, FLUID_LOVE=0, ITERATIONS=3, POLAR=True, ASTYPE=np.float64, SCALE=1e-32, FILL_VALUE=0).T))
            E = np.array(E).T
        else: E = -np.einsum('aij,ij->a', Y, sea * area)[:, None] * (np.einsum('ijt,ij->t', mass, area) / (sea * area).sum())
        v = np.linalg.solve(I, E + (ob - gd if model == 'ECCO_v5' else 0) - G) / D[1] + moved; v = centred(v); every.append(v)
        eps = np.sqrt(((v - last)**2).sum() / (last**2).sum()); last = v
        if eps <= 1e-6: break
    # the files
    flags = '%s%s%s' % ('_SLF' if sl else '', '_iter' if it else '', ''.join('_w%s_%s' % (opts[k], n) for k, n in (('SLR_21', '21'), ('SLR_22', '22'), ('SLR_C30', 'C30'), ('SLR_C40', 'C40'), ('SLR_C50', 'C50')) if opts[k] and (k, opts[k]) != ('SLR_C30', 'GSFC')))
    stem = 'CSR_%s_%s%s%s' % (rel, model, flags, '_model' if gia else ''); ds = '_FL' if fl else ''; files = [stem + ds + '.txt', stem + '_wAOD' + ds + '.txt', stem + ds + '.nc']
    ctx.check([p.name for p in out if p.name in files][-1] == files[2] and all((d / 'geocenter' / x).exists() for x in files) and (copy or len(out) == 3), 'files')
    tol = (1e-6 if mean and mf == 'ascii' or model == 'ECCO_v5' and fmt == 'ascii' else 1e-9) * (100 if it else 1) * np.linalg.cond(I); sc = max(float(np.abs(x).max()) for x in every + [G / D[1], E / D[1], mass / D[1], moved])
    for name, v in zip(files, (last, last + aod)):
        rows = (d / 'geocenter' / name).read_text().split('# End of YAML header\n')[1].splitlines(); ctx.check([len(x) for x in rows] == [57] * nt and [int(x[-3:]) for x in rows] == list(mon), 'months of the text')
        got = np.array([[float(x[11 + 14 * k:25 + 14 * k]) for x in rows] for k in range(3)]); ctx.eq(got, v, 'coefficients of the text', tol=max(tol, 2e-6), scale=sc); ctx.eq([float(x[:11]) for x in rows], t, 'dates of the text', tol=1.3e-8 * 2, scale=1)
    if copy:
        plain = 'CSR_%s_%s%s' % (rel, model, '%s%s' % ('_SLF' if sl else '', '_iter' if it else ''))
        for x in ('', '_wAOD'):
            p = d / 'geocenter' / (plain + x + '.txt'); ctx.check(p.resolve() == (d / 'geocenter' / (stem + x + ds + '.txt')).resolve() or plain + x + '.txt' in files, 'public copy')
            old = [y for y in (d / 'geocenter').glob(plain + x + '_????-??-??.txt')]; ctx.check(len(old) == 1 and old[0].read_text() == (d / 'geocenter' / (stem + x + ds + '.txt')).read_text(), 'dated copy')
    with netCDF4.Dataset(d / 'geocenter' / files[2]) as g:
        ctx.eq(g['time'][:], t, 'dates', tol=1e-13, scale=1); ctx.check(list(g['month'][:]) == list(mon) and len(g.dimensions["iteration"]) == len(every) == count, 'months and iterations')
        for k, x in enumerate(('C10', 'C11', 'S11')):
            ctx.eq(np.array(g[x][:]), np.array([v[k] for v in every]).T, 'coefficients of every iteration', tol=tol, scale=sc)
            for n, v in (('AOD', aod), ('OBP', ob / D[1]), ('OWM', G / D[1]), ('ESL', E / D[1])): ctx.eq(np.array(g[n][x][:]), v[k], 'coefficients of ' + n, tol=tol, scale=sc)
        ctx.check(g.solver == solver and int(g.max_degree) == L and int(g.max_order) == m and g.solution_type == ('iterative' if it else 'single'), 'attributes')

# ------------------------------------------------------------------------------ the computations of the programs, whatever the files hold
from gravity_toolkit.harmonics import harmonics
from gravity_toolkit.units import units as earth_units
from contracts.common import legendre_callee, gauss_callee, R as REGION
from contracts.c29 import Given, Captured, Earth
from contracts.c30 import Drift
PI = np.pi

# order, unit, smoothed, interval
ERRORS = [(None, 1, False, 1), ('given', 2, True, 2), (None, 3, True, 3), ('given', 4, False, 1), (None, 5, False, 2)]
@contract('maps of errors are the root sums of squares of those of the harmonics', S + 'grace_spatial_error.grace_spatial_error', samples=60, budget=200)
def errored(ctx):
    F = legendre_callee(ctx); W = gauss_callee(ctx); d = pathlib.Path(ctx.tmpdir())
    L = ctx.int('LMAX', 1, draw=(1, 6)); M = ctx.int('MMAX', 1, draw=(1, 6)); ctx.assume(M <= L); lmin = ctx.int('LMIN', 0, draw=(0, 3)); ctx.assume(lmin <= L)
    order, unit, rad, iv = ctx.choice('case', ERRORS if ctx.symbolic else [(o, u, w, v) for o in (None, 'given') for u in (1, 2, 3, 4, 5) for w in (False, True) for v in (1, 2, 3)])
    m1 = L if order is None else M; mon = np.arange(2) + 12; t0 = ctx.real('time', lo=2002, hi=2050, draw=(2002.0, 2020.0)); t = t0 + np.arange(2) / ctx.lit('8.0')
    if order is not None and ctx.symbolic: ctx.assume(M < L)
    def ylms(x, k, **kw):
        Y = harmonics(lmax=L, mmax=m1); shape = (L + 1, m1 + 1) + ((k,) if k else ())
        Y.clm = ctx.arr('clm' + x, shape, **kw); Y.slm = ctx.arr('slm' + x, shape, **kw); Y.time, Y.month = t, mon; return Y, ctx.snap(Y.clm), ctx.snap(Y.slm)
    Y, _, _ = ylms('', 2); D, dc, ds = ylms(' of the errors', None); ns = ctx.int('months of the errors', 1, draw=(1, 40)); D.time, D.month = t0, ns; D.update_dimensions(); Given.asked = []; Captured.written = []
    hw = ctx.real('radius', lo=1, hi=5000, draw=(100.0, 800.0)) if rad else 0
    delta = 'CSR_RL06_GSM_DELTA_CLM_L{0:d}{1}_{2:03d}-{3:03d}.nc'.format(L, '' if order is None or not ctx.symbolic and M == L else 'M{0:d}'.format(M), 12, 13); (d / delta).write_text(''); Given.files = {delta: D}
    E = Earth(ctx.arr('hl', (L + 1,), lo=-3, hi=ctx.lit('0.9')), ctx.arr('kl', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')), ctx.arr('ll', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')))
    f = ctx.snap(earth_units(lmax=L).harmonic(*E).get(UNITS[unit])); kw = {}
    nlon = ctx.int('nlon', 2, draw=(2, 9)); nlat = ctx.int('nlat', 2, draw=(2, 9)); ctx.hint(nlon, nlat, -nlon, -nlat)
    # (spacings whose multiples are floating-point numbers)
    if not ctx.symbolic: ctx.assume(all(n - (iv == 1) not in (7,) for n in (nlon, nlat)) or iv == 3)
    if iv == 1: dx, dy, x0, y0 = 360 / (nlon - 1), 180 / (nlat - 1), -180, 90
    elif iv == 2: dx, dy = 360 / nlon, 180 / nlat; x0, y0 = -180 + dx / 2, 90 - dy / 2
    else:
        dx, dy = ctx.real('dlon', lo=ctx.lit('0.01'), draw=(0.5, 20.0)), ctx.real('dlat', lo=ctx.lit('0.01'), draw=(0.5, 10.0)); w, n = ctx.real('west', lo=-360, hi=360, draw=(-180.0, 180.0)), ctx.real('north', lo=-90, hi=90, draw=(0.0, 90.0))
        if not ctx.symbolic: dx, dy, w, n = (np.ceil(16 * v) / 16 for v in (dx, dy, w, n))
        x0, y0 = w + dx / 2, n - dy / 2; kw['BOUNDS'] = [w, w + nlon * dx, n - nlat * dy, n]
    months = lambda *a, **k: dict(clm=Y.clm, slm=Y.slm, time=t, month=mon, l=np.arange(L + 1), m=np.arange(m1 + 1), title='', directory=d, attributes={'lineage': []})
    with Patched(ctx, {('gravity_toolkit', 'harmonics'): Given, ('gravity_toolkit', 'spatial'): Captured, ('gravity_toolkit', 'load_love_numbers'): lambda *a, **k: E, ('gravity_toolkit.harmonics', 'adjust_months'): lambda m: m, ('gravity_toolkit', 'grace_input_months'): months}):
        grace_spatial_error(d, 'CSR', 'RL06', 'GSM', L, hw, MMAX=None if order is None else M, LMIN=lmin, LOVE_NUMBERS=0, REFERENCE='CF', UNITS=unit, DDEG=[dx, dy], INTERVAL=iv, DATAFORM='netCDF4', OUTPUT_DIRECTORY=d, FILE_PREFIX='map_', **kw)
    (name, fmt, date, g, k), = Captured.written
    ctx.check(os.path.basename(name).startswith('map_%s_L' % UNITS[unit]) and fmt == 'netCDF4' and not date, 'file written')
    ctx.shape(g.lon, (nlon,)); ctx.shape(g.lat, (nlat,)); ctx.shape(g.data, (nlat, nlon))
    ctx.forall(REGION(nlon), lambda j: ctx.eq(g.lon[j], x0 + j * dx, 'longitudes')); ctx.forall(REGION(nlat), lambda i: ctx.eq(g.lat[i], y0 - i * dy, 'latitudes'))
    P = F(L, lambda i: np.cos((90 - (y0 - i * dy)) * PI / 180), nlat); w = W(hw, L) if rad else None; one = lambda l: f[l] * (2 * PI * w(l) if rad else 1)
    def value(i, j):
        x = ctx.sum(0, m1 + 1, lambda m: np.cos(m * ((x0 + j * dx) * PI / 180))**2 * ctx.sum(0, L + 1, lambda l: P(l, m, i)**2 * (one(l) * ctx.ite(lmin <= l, dc[l, m], 0))**2 / ns)) + \
            ctx.sum(0, m1 + 1, lambda m: np.sin(m * ((x0 + j * dx) * PI / 180))**2 * ctx.sum(0, L + 1, lambda l: P(l, m, i)**2 * (one(l) * ctx.ite(lmin <= l, ds[l, m], 0))**2 / ns))
        ctx.eq(g.data[i, j]**2, x, 'sum of the squares', tol=1e-8, scale=1e9)
    ctx.forall(REGION(nlat, nlon), value)

Grid = gravtk.spatial
class Levels(Grid):
    """stands in for the files of grids: the land mask given and the grid written"""
    def from_netCDF4(self, filename, date=True, varname=None, **kw):
        Levels.asked.append((os.path.basename(str(filename)), date, varname)); g = Levels.land.copy(); return g
    def to_netCDF4(self, filename, date=True, **kw): Levels.written.append((os.path.basename(str(filename)), date, self, kw)); open(filename, 'w').close()

# months, dates, order of the file over that of the solution
LEVELS = [(1, True), (2, True), (1, False)]
@contract('fingerprints are the solutions of the sea level equation over the ocean', S + 'run_sea_level_equation.run_sea_level_equation', samples=40, budget=120)
def solved(ctx):
    F = legendre_callee(ctx); d = pathlib.Path(ctx.tmpdir()); L = ctx.int('LMAX', 1, draw=(1, 6)); L0 = ctx.int('lmax of the file', 1, draw=(1, 6)); ctx.assume(L <= L0)
    nt, date = ctx.choice('case', LEVELS); polar = ctx.choice('polar', [False, True]); body, fluid = ctx.choice('love', [(0, 1), (1, 3)])
    Y = harmonics(lmax=L0, mmax=L0); Y.clm, Y.slm = ctx.arr('clm', (L0 + 1, L0 + 1, nt)), ctx.arr('slm', (L0 + 1, L0 + 1, nt)); t0 = ctx.real('time', lo=2002, hi=2050, draw=(2002.0, 2020.0)); Y.time, Y.month = (t0 + np.arange(nt), 12 + np.arange(nt)) if date else (None, None)
    C, T = ctx.snap(Y.clm), ctx.snap(Y.slm); Y.update_dimensions()
    if nt == 1: Y.clm, Y.slm = Y.clm[:, :, 0], Y.slm[:, :, 0]
    ny, nx = ctx.int('nlat', 2, draw=(2, 5)), ctx.int('nlon', 2, draw=(2, 5)); g = Grid(); g.lon, g.lat = ctx.arr('lon', (nx,), draw=(-180.0, 180.0)), ctx.arr('lat', (ny,), lo=-90, hi=90, draw=(-90.0, 90.0)); g.data = ctx.arr('mask', (ny, nx), kind='i', lo=0, hi=4, draw=(0, 4)); g.mask = None
    Levels.land, Levels.asked, Levels.written, Given.files, Given.asked = g, [], [], {'in': Y}, []; z = ctx.snap(g.data); lon, lat = ctx.snap(g.lon), ctx.snap(g.lat)
    E = Earth(ctx.arr('hl', (L + 1,)), ctx.arr('kl', (L + 1,)), ctx.arr('ll', (L + 1,))); seen = []; level = [ctx.arr('sea level %d' % k, (nx, ny), sprinkle=[0.0]) for k in range(nt)]
    def solve(c, s, x, y, land, LMAX=None, **k):
        seen.append((ctx.snap(c), ctx.snap(s), ctx.snap(land), LMAX, dict(k, PLM=None), ctx.snap(k['PLM']), ctx.snap(x), ctx.snap(y))); return level[len(seen) - 1].copy()
    with Patched(ctx, {('gravity_toolkit', 'harmonics'): Given, ('gravity_toolkit', 'spatial'): Levels, ('gravity_toolkit', 'load_love_numbers'): lambda *a, **k: E, ('gravity_toolkit', 'sea_level_equation'): solve}):
        run_sea_level_equation(d / 'in', d / 'out', LANDMASK=d / 'land', LMAX=L, LOVE_NUMBERS=0, BODY_TIDE_LOVE=body, FLUID_LOVE=fluid, REFERENCE='CF', ITERATIONS=6, POLAR=polar, DATAFORM='netCDF4', DATE=date)
    ctx.check(Levels.asked == [('land', False, 'LSMASK')] and [a[1:] for a in Given.asked] == [('netCDF4', date)] and len(seen) == nt, 'files read')
    (name, dated, g, k), = Levels.written; ctx.check(name == 'out' and dated == date, 'file written'); ctx.shape(g.data, (ny, nx) if nt == 1 else (ny, nx, nt))
    P = F(L, lambda i: np.cos((90 - lat[i]) * PI / 180), ny)
    for k, (c, s, land, lmax, opt, plm, x, y) in enumerate(seen):
        ctx.check(opt == dict(LOVE=E, BODY_TIDE_LOVE=body, FLUID_LOVE=fluid, POLAR=polar, PLM=None, ITERATIONS=6, FILL_VALUE=0), 'options of the solver'); ctx.eq(lmax, L, 'degree of the solution', tol=0)
        ctx.shape(c, (L + 1, L + 1)); ctx.shape(s, (L + 1, L + 1)); ctx.shape(land, (nx, ny))
        ctx.forall(REGION(L + 1, L + 1), lambda l, m: (ctx.eq(c[l, m], C[l, m, k], 'load', tol=0), ctx.eq(s[l, m], T[l, m, k], 'load', tol=0)))
        ctx.forall(REGION(nx, ny), lambda j, i: ctx.eq(land[j, i], ctx.ite((z[i, j] >= 1) & (z[i, j] <= 3), 1, 0), 'land', tol=0))
        ctx.forall(REGION(L + 1, L + 1, ny), lambda l, m, i: ctx.eq(plm[l, m, i], P(l, m, i), 'associated Legendre functions', tol=1e-12))
        ctx.forall(REGION(nx), lambda j: ctx.eq(x[j], lon[j], 'longitudes', tol=0)); ctx.forall(REGION(ny), lambda i: ctx.eq(y[i], lat[i], 'latitudes', tol=0))
        q = ctx.snap(level[k]); ctx.forall(REGION(ny, nx), lambda i, j: ctx.eq(g.data[i, j] if nt == 1 else g.data[i, j, k], q[j, i], 'sea level', tol=0))
        if date: ctx.eq(np.atleast_1d(g.time)[k], t0 + k, 'dates', tol=0)
    ctx.shape(g.lon, (nx,)); ctx.shape(g.lat, (ny,)); ctx.forall(REGION(nx), lambda j: ctx.eq(g.lon[j], lon[j], 'longitudes', tol=0)); ctx.forall(REGION(ny), lambda i: ctx.eq(g.lat[i], lat[i], 'latitudes', tol=0))
