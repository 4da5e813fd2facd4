import os, pathlib
import numpy as np
import gravity_toolkit as gravtk
from dv.ctx import contract
from contracts.c26 import Patched
from contracts.c29 import FORMATS, ENDING, dates, field
from scripts.grace_spatial_maps import grace_spatial_maps
from scripts.calc_sensitivity_kernel import calc_sensitivity_kernel
from scripts.calc_mascon import calc_mascon
from scripts.mascon_reconstruct import mascon_reconstruct
from scripts.regress_grace_maps import regress_grace_maps
from scripts.scale_grace_maps import scale_grace_maps
S = 'scripts.'

# ------------------------------------------------------------------------------ parts of a run
class GIA:
    """stands in for a model of glacial isostatic adjustment (property C11)"""
    rate = None; asked = []
    def __new__(cls, lmax=None, **kw): return object.__new__(cls)
    def __init__(self, lmax=None, **kw): self.lmax = lmax
    def from_GIA(self, filename, GIA=None, mmax=None, **kw):
        globals()['GIA'].asked.append((None if filename is None else str(filename), GIA, self.lmax, None if mmax is None else int(mmax)))
        c, s = globals()['GIA'].rate
        m = self.lmax if mmax is None else int(mmax)
        Y = gravtk.harmonics(lmax=self.lmax, mmax=m)
        Y.clm, Y.slm = (c[:, :m + 1].copy(), s[:, :m + 1].copy()) if GIA else (np.zeros((self.lmax + 1, m + 1)), np.zeros((self.lmax + 1, m + 1)))
        Y.title = 'model' if GIA else None; Y.citation = 'someone'; Y.reference = 'somewhere'; Y.url = ''
        return Y

def landmask(r, p):
    import netCDF4
    nl, nL = 10, 18; land = np.array([r.randint(0, 3) for _ in range(nl * nL)]).reshape(nl, nL)
    with netCDF4.Dataset(p, 'w') as f:
        f.createDimension('lat', nl); f.createDimension('lon', nL)
        f.createVariable('lat', 'f8', ('lat',))[:] = 81 - 18.0 * np.arange(nl); f.createVariable('lon', 'f8', ('lon',))[:] = 10 + 20.0 * np.arange(nL)
        f.createVariable('LSMASK', 'i1', ('lat', 'lon'))[:] = land
    return p

def ylms(c, s, t=None, mon=None):
    Y = gravtk.harmonics(lmax=c.shape[0] - 1, mmax=c.shape[1] - 1); Y.clm, Y.slm = c.copy(), s.copy()
    if t is not None: Y.time, Y.month = t, mon
    return Y

def destriped(c, s, t, mon):
    Y = ylms(c, s, t.copy(), mon.copy()).destripe()
    return Y.clm, Y.slm

class Run:
    """drawn input of the programs: months, mean, drift and fields to remove"""
    def __init__(self, ctx, nt, smallest=1):
        r = self.r = ctx.rng; d = self.d = pathlib.Path(ctx.tmpdir()); self.nt = nt
        self.destripe = r.random() < 0.25
        self.L = L = r.randint(6, 8) if self.destripe else r.randint(smallest, 7); self.M = M = r.choice([None, L] if self.destripe else [None, L, r.randint(1, L)]); self.m = m = L if M is None else M
        self.c, self.s = (x[:, :m + 1].copy() for x in field(r, L, nt)); self.t, self.mon = dates(r, nt)
        gap = sorted(r.sample(range(nt), r.randint(0, max(0, min(2, nt - 3)))))
        self.kw = kw = {}; self.asked = []
        kw.update(DATAFORM=r.choice(FORMATS), LOVE_NUMBERS=r.choice([0, 1, 2, 3]), REFERENCE=r.choice(['CF', 'CE']), DESTRIPE=self.destripe, MMAX=M)
        self.RAD = r.choice([0, 0, 300, 250.0]); self.fmt = kw['DATAFORM']
        self.months = dict(START=int(self.mon[0]), END=int(self.mon[-1]), MISSING=[1000 + k for k in gap])
        self.corrections = {k: r.choice([None, 'CSR']) for k in ('SLR_C20', 'SLR_21', 'SLR_22', 'SLR_C30', 'SLR_C40', 'SLR_C50')}
        self.corrections.update(DEG1=r.choice([None, 'UCI']), DEG1_FILE=r.choice([None, 'a.txt']), MODEL_DEG1=r.random() < 0.5, ATM=r.random() < 0.5, POLE_TIDE=r.random() < 0.5)
        self.LOVE = gravtk.load_love_numbers(L, LOVE_NUMBERS=kw['LOVE_NUMBERS'], REFERENCE=kw['REFERENCE'], FORMAT='class')
        self.title = r.choice(['', '_w#']); self.directory = d / 'out'; self.directory.mkdir()
        c, s = self.c, self.s
        if r.random() < 0.5:
            mc, ms = (x[:, :m + 1, 0].copy() for x in field(r, L, 1)); kw['MEANFORM'] = r.choice(FORMATS); kw['MEAN_FILE'] = d / ('mean' + ENDING[kw['MEANFORM']])
            ylms(mc, ms).to_file(kw['MEAN_FILE'], format=kw['MEANFORM'], date=False)
        else: mc, ms = c.mean(axis=2), s.mean(axis=2)
        c, s = c - mc[:, :, None], s - ms[:, :, None]
        if self.destripe: c, s = destriped(c, s, self.t, self.mon)
        self.before = c.copy(), s.copy()
        gc, gs = (x[:, :, 0] * 0.05 for x in field(r, L, 1)); GIA.rate = gc, gs; GIA.asked = []; self.gia = r.choice([None, 'ICE6G'])
        kw.update(GIA=self.gia, GIA_FILE=d / 'gia.txt' if self.gia else None)
        if self.gia:
            c, s = (x - g[:, :m + 1, None] * (self.t - 2003.3) for x, g in ((c, gc), (s, gs)))
        self.ocean = r.random() < 0.3; self.mask = landmask(r, d / 'land.nc')
        self.o = gravtk.ocean_stokes(self.mask, L, MMAX=m, LOVE=self.LOVE)
        kw.update(REDISTRIBUTE_REMOVED=self.ocean, LANDMASK=self.mask)
        n = r.choice([0, 0, 1, 2]); self.removed = n
        if n:
            files, forms = [], []; one = r.random() < 0.5; form = r.choice(FORMATS)
            for i in range(n):
                if not one: form = r.choice(FORMATS)
                Lr = L + r.randint(0, 2); k = r.randint(0 if nt > 1 else 1, 2)
                rt = np.concatenate([self.t, self.t[-1] + (1 + np.arange(k)) / 12]); rm = np.concatenate([self.mon, self.mon[-1] + 1 + np.arange(k)])
                rc, rs = (x * 0.3 for x in field(r, Lr, len(rt)))
                index = r.random() < 0.5 if not one else i == 0 and r.random() < 0.5 or i > 0 and forms[0].startswith('index')
                if form == 'ascii' and not index:
                    index = True
                    if one and i > 0: index = forms[0].startswith('index')
                if index:
                    names = []
                    for j in range(len(rt)):
                        p = d / ('rm%d_%03d%s' % (i, rm[j], ENDING[form])); names.append(str(p)); ylms(rc[:, :, j], rs[:, :, j], rt[j], rm[j]).to_file(p, format=form)
                    p = d / ('rm%d.txt' % i); p.write_text('\n'.join(names) + '\n')
                else:
                    p = d / ('rm%d%s' % (i, ENDING[form])); ylms(rc, rs, rt, rm).to_file(p, format=form)
                files.append(p); forms.append(('index-' if index else '') + form)
                rc, rs = rc[:L + 1, :m + 1, :nt], rs[:L + 1, :m + 1, :nt]
                if self.ocean:
                    q = rc[0, 0].copy() / self.o.clm[0, 0]
                    rc, rs = rc - self.o.clm[:, :, None] * q, rs - self.o.slm[:, :, None] * q
                if self.destripe: rc, rs = destriped(rc, rs, self.t, self.mon)
                c, s = c - rc, s - rs
            kw.update(REMOVE_FILES=files, REMOVE_FORMAT=[forms[0]] if one else forms)
        self.C, self.T = c, s
        # coefficients of the files of text have their own precision
        self.tol = 1e-6 if (n or 'MEANFORM' in kw and kw['MEANFORM'] == 'ascii') else 1e-9
    def input(self, base, *a, **k):
        self.asked.append((a, k))
        return dict(clm=self.c.copy(), slm=self.s.copy(), eclm=np.zeros_like(self.c), eslm=np.zeros_like(self.c), time=self.t.copy(), month=self.mon.copy(), l=np.arange(self.L + 1), m=np.arange(self.m + 1),
            title=self.title, directory=self.directory, attributes={'lineage': ['%d' % i for i in range(self.nt)]})
    def patched(self, ctx): return Patched(ctx, {('gravity_toolkit', 'grace_input_months'): self.input, ('gravity_toolkit', 'gia'): GIA})
    def requested(self, ctx, proc, rel, prod):
        (a, k), = self.asked
        ctx.check(tuple(a[:7]) == (proc, rel, prod, self.L, self.months['START'], self.months['END'], self.months['MISSING']), 'months asked for')
        k = dict(k, SLR_C20=a[7], DEG1=a[8])
        ctx.check(all(k[n] == v for n, v in self.corrections.items()) and int(k['MMAX']) == self.m, 'corrections asked for')
        (n, g, l, m), = GIA.asked
        ctx.check(n == (str(self.kw['GIA_FILE']) if self.gia else n) and g == self.gia and l == self.L and m in (self.m, self.M), 'drift asked for')
    @property
    def smooth(self): return 2 * np.pi * gravtk.gauss_weights(self.RAD, self.L) if self.RAD else np.ones(self.L + 1)
    @property
    def order(self): return 'M%d' % self.m if self.m != self.L else ''
    @property
    def radius(self): return '_r%.0fkm' % self.RAD if self.RAD else ''

UNITS = ['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar']
def grids(r, iv):
    dlon, dlat = r.choice([30.0, 20.0, 45.0, 60.0]), r.choice([30.0, 20.0, 22.5, 45.0])
    if iv == 1: return dlon, dlat, -180 + dlon * np.arange(round(360 / dlon) + 1), 90 - dlat * np.arange(round(180 / dlat) + 1)
    if iv == 2: return dlon, dlat, -180 + dlon / 2 + dlon * np.arange(round(360 / dlon)), 90 - dlat / 2 - dlat * np.arange(round(180 / dlat))
    nx, ny = r.randint(2, 4), r.randint(2, 3); x0 = r.choice([-180.0, -40.0, 0.0, 10.0]); y0 = r.choice([-90.0, -60.0, 0.0])
    ny = min(ny, int((90 - y0) / dlat))
    return dlon, dlat, x0 + dlon / 2 + dlon * np.arange(nx), y0 + dlat * ny - dlat / 2 - dlat * np.arange(ny)

def values(C, T, w, lon, lat, lmin=0):
    L, m = C.shape[0] - 1, C.shape[1] - 1
    P, _ = gravtk.plm_holmes(L, np.cos(np.radians(90 - lat))); P = P[:, :m + 1] * (w * (np.arange(L + 1) >= lmin))[:, None, None]
    k = np.arange(m + 1)[:, None] * np.radians(lon)[None, :]
    return np.einsum('lmi,lmt,mj->ijt', P, C, np.cos(k)) + np.einsum('lmi,lmt,mj->ijt', P, T, np.sin(k))

def grid_of(p, fmt, lon, lat, dlon, dlat, date=True):
    if fmt == 'ascii': return gravtk.spatial().from_ascii(p, spacing=[dlon, dlat], nlat=len(lat), nlon=len(lon), extent=[lon[0], lon[-1], lat[-1], lat[0]], date=date)
    return gravtk.spatial().from_file(p, format=fmt, date=date)

@contract('monthly maps of mass change', S + 'grace_spatial_maps.grace_spatial_maps', symbolic=False, samples=60, bounded='drawn months and options, degrees to 8, every format and unit')
def maps(ctx):
    R = Run(ctx, ctx.rng.randint(1, 4)); r = R.r
    iv = r.choice([1, 2, 3]); dlon, dlat, lon, lat = grids(r, iv); unit = r.choice([1, 2, 3, 4, 5]); lmin = r.randint(0, min(2, R.m))
    if len(lat) < 2: return
    kw = dict(R.kw, **R.months, **R.corrections, LMIN=lmin, UNITS=unit, INTERVAL=iv, DDEG=[dlon, dlat] if dlon != dlat or r.random() < 0.5 else [dlon], OUTPUT_DIRECTORY=R.d / 'maps')
    if iv == 3: kw['BOUNDS'] = [float(lon[0] - dlon / 2), float(lon[-1] + dlon / 2), float(lat[-1] - dlat / 2), float(lat[0] + dlat / 2)]
    prefix = r.choice([None, 'mine_'])
    with R.patched(ctx): out = grace_spatial_maps(R.d, 'CSR', 'RL06', 'GSM', R.L, R.RAD, FILE_PREFIX=prefix, **kw)
    R.requested(ctx, 'CSR', 'RL06', 'GSM')
    u = UNITS[unit]; w = gravtk.units(lmax=R.L).harmonic(*R.LOVE).get(u) * R.smooth
    e = values(R.C, R.T, w, lon, lat, lmin); sc = float(np.abs(e).max()) + 1e-30
    pre = prefix or 'CSR_RL06_GSM%s%s_' % (R.title, '_model' if R.gia else '')
    names = ['%s%s_L%d%s%s%s_%03d.%s' % (pre, u, R.L, R.order, R.radius, '_FL' if R.destripe else '', k, ENDING[R.fmt][1:]) for k in R.mon]
    ctx.check([p.name for p in out] == names and all(p.parent == R.d / 'maps' for p in out), 'files')
    for i, p in enumerate(out):
        g = grid_of(p, R.fmt, lon, lat, dlon, dlat)
        ctx.eq(np.squeeze(g.data), np.squeeze(e[:, :, i]), 'values of the map', tol=R.tol if R.fmt != 'ascii' else 2e-6, scale=sc if R.fmt != 'ascii' else sc + 70)
        ctx.eq(g.lon, lon, 'longitudes', tol=1e-9, scale=1); ctx.eq(g.lat, lat, 'latitudes', tol=1e-9, scale=1)
        ctx.eq(np.atleast_1d(g.time), R.t[i:i + 1], 'date', tol=1.3e-8 if R.fmt == 'ascii' else 1e-13, scale=1)
        if R.fmt != 'ascii':
            a = g.attributes['ROOT']
            ctx.check(list(np.atleast_1d(g.month)) == [R.mon[i]] and int(a['max_degree']) == R.L and int(a['max_order']) == R.m and str(a['earth_model']) == R.LOVE.model, 'attributes')

# ------------------------------------------------------------------------------ mascons
def mascons(r, d, L, m, form, n, ocean, o, LOVE):
    """drawn mascons: names, index file, areas and coefficients for the fit"""
    names, files, area, C, T = [], [], [], [], []
    a = gravtk.units(lmax=L).harmonic(*LOVE); Lf = L + r.randint(0, 2)
    for k in range(n):
        c, s = (x[:, :, 0] * 1e-3 for x in field(r, Lf, 1)); c[0, 0] = r.choice([1, -1]) * r.uniform(2e-12, 1e-11)
        stem = r.choice(['mascon_%d', 'Mascon%d_L60', 'mas%d_L60M30', 'GrIS_%d_L%d' % (k, Lf)]); stem = stem % k if '%' in stem else stem
        p = d / ('%s%s' % (stem, ENDING[form])); ylms(c, s).to_file(p, format=form, date=False)
        p and files.append(str(p)); names.append({'mas': 'MAS%d', 'Mas': 'MASCON%d', 'GrI': 'GRIS_%d'}[stem[:3]] % k if not stem.startswith('mascon') else 'MASCON_%d' % k)
        area.append(4 * np.pi * a.rad_e**3 * a.rho_e * c[0, 0] / 3)
        c, s = c[:L + 1, :m + 1].copy(), s[:L + 1, :m + 1].copy()
        if ocean:
            q = c[0, 0] / o.clm[0, 0]; c -= q * o.clm; s -= q * o.slm
        C.append(c); T.append(s)
    p = d / 'mascons.txt'; lines = list(files)
    if r.random() < 0.5: lines.insert(r.randint(0, n), r.choice(['# comment', '% comment', '']))
    p.write_text('\n'.join(lines) + '\n')
    return names, p, np.array(area), np.stack(C, -1), np.stack(T, -1)

def kernels(C, T, area, lmin, w, method, LOVE):
    """masses of the mascons for one unit of a coefficient: least squares over the degrees from lmin"""
    L, m = C.shape[0] - 1, C.shape[1] - 1
    idx = [(x, l, k) for x, a in ((0, C), (1, T)) for l in range(lmin, L + 1) for k in range(x, min(m, l) + 1)]
    B = np.array([(C, T)[x][l, k] for x, l, k in idx]); l = np.array([i[1] for i in idx])
    f = w[l] * ((2 * l + 1) / (1 + np.array(LOVE.kl)[l]) if method == 1 else 1)
    B = B * f[:, None]
    if np.linalg.cond(B) > 1e4: return None
    A = (np.linalg.pinv(B) * f[None, :] * area[:, None]).T
    return idx, l, A

def fit(r, n, L, m, lmin):
    return dict(FIT_METHOD=r.choice([1, 2]), SOLVER=r.choice(['lstsq', 'gelsd', 'gelsy', 'gelss']), LMIN=lmin)

@contract('sensitivity kernels of mascons', S + 'calc_sensitivity_kernel.calc_sensitivity_kernel', symbolic=False, samples=60, bounded='1 to 4 drawn mascons of degrees to 8, every format, solver and kind of fit')
def kernel(ctx):
    r = ctx.rng; d = pathlib.Path(ctx.tmpdir()); fmt = r.choice(FORMATS); L = r.randint(2, 6); M = r.choice([None, L, r.randint(1, L)]); m = L if M is None else M
    love, frame, rad = r.choice([0, 1, 2, 3]), r.choice(['CF', 'CE']), r.choice([0, 0, 300, 250.0]); LOVE = gravtk.load_love_numbers(L, LOVE_NUMBERS=love, REFERENCE=frame, FORMAT='class')
    ocean = r.random() < 0.4; mask = landmask(r, d / 'land.nc'); o = gravtk.ocean_stokes(mask, L, MMAX=m, LOVE=LOVE)
    lmin = r.randint(0, 2) if m > 1 else r.randint(0, 1); kw = fit(r, 0, L, m, lmin)
    idx = [0 for x in (0, 1) for l in range(lmin, L + 1) for k in range(x, min(m, l) + 1)]
    n = r.randint(1, 4)
    if len(idx) <= 8 and r.random() < 0.7: n = len(idx); kw['SOLVER'] = 'inv'; ocean = False
    names, index, area, C, T = mascons(r, d, L, m, fmt, n, ocean, o, LOVE)
    w = 2 * np.pi * gravtk.gauss_weights(rad, L) if rad else np.ones(L + 1)
    k = kernels(C, T, area, lmin, w, kw['FIT_METHOD'], LOVE)
    if k is None: return
    idx, l, A = k; spatial = r.random() < 0.5; iv = r.choice([1, 2, 3]); dlon, dlat, lon, lat = grids(r, iv)
    if len(lat) < 2: spatial = False
    if iv == 3: kw['BOUNDS'] = [float(lon[0] - dlon / 2), float(lon[-1] + dlon / 2), float(lat[-1] - dlat / 2), float(lat[0] + dlat / 2)]
    out = calc_sensitivity_kernel(L, rad, MMAX=M, LOVE_NUMBERS=love, REFERENCE=frame, DATAFORM=fmt, MASCON_FILE=index, REDISTRIBUTE_MASCONS=ocean, LANDMASK=mask, SPATIAL=spatial, INTERVAL=iv,
        DDEG=[dlon, dlat] if dlon != dlat or r.random() < 0.5 else [dlon], OUTPUT_DIRECTORY=d / 'out', **kw)
    u = gravtk.units(lmax=L).harmonic(*LOVE)
    inv = 0.75 / (np.pi * u.rho_e * u.rad_e**3) * (1 + np.array(LOVE.kl)[l]) / (2 * l + 1) if kw['FIT_METHOD'] == 1 else np.ones(len(l))
    tail = '_L%d%s%s.%s' % (L, 'M%d' % m if m != L else '', '_r%.0fkm' % rad if rad else '', ENDING[fmt][1:])
    want = ['%s_SKERNEL_CLM%s%s' % (x, '_OCN' if ocean else '', tail) for x in names] + (['%s_SKERNEL%s%s' % (x, '_OCN' if ocean else '', tail) for x in names] if spatial else [])
    ctx.check([p.name for p in out] == want and all(p.parent == d / 'out' for p in out), 'files')
    for i in range(n):
        e = np.zeros((2, L + 1, m + 1))
        for j, (x, a, b) in enumerate(idx): e[x, a, b] = inv[j] * A[j, i]
        Y = gravtk.harmonics().from_file(out[i], format=fmt, date=False); sc = float(np.abs(e).max())
        ctx.eq(Y.clm[:, :m + 1], e[0], 'cosine coefficients of the kernel', tol=1e-6, scale=sc); ctx.eq(Y.slm[:, :m + 1], e[1], 'sine coefficients of the kernel', tol=1e-6, scale=sc)
        if spatial:
            v = values(e[0][:, :, None], e[1][:, :, None], np.ones(L + 1), lon, lat)[:, :, 0]; g = grid_of(out[n + i], fmt, lon, lat, dlon, dlat, date=False)
            sc = float(np.abs(v).max())
            ctx.eq(np.squeeze(g.data), v, 'map of the kernel', tol=1e-6, scale=sc if fmt != 'ascii' else sc + 70); ctx.eq(g.lon, lon, 'longitudes', tol=1e-9, scale=1); ctx.eq(g.lat, lat, 'latitudes', tol=1e-9, scale=1)

@contract('mass change of mascons', [S + 'calc_mascon.calc_mascon', S + 'mascon_reconstruct.mascon_reconstruct'], symbolic=False, samples=40, bounded='1 to 4 drawn mascons of degrees to 8, drawn months and options, every solver and kind of fit')
def series(ctx):
    r = ctx.rng; given = r.random() < 0.5; cnes = not given and r.random() < 0.2
    R = Run(ctx, r.randint(1, 4) if given else r.randint(39, 41) if cnes else r.randint(13, 16)); d, L, m, nt = R.d, R.L, R.m, R.nt
    if cnes and L > 4: return
    lmin = r.randint(0, min(2, m)); kw = fit(r, 0, L, m, lmin); n = r.randint(1, 4); spread = r.random() < 0.3; form = r.choice(FORMATS)
    names, index, area, C, T = mascons(r, d, L, m, form, n, spread, R.o, R.LOVE)
    k = kernels(C, T, area, lmin, R.smooth, kw['FIT_METHOD'], R.LOVE)
    if k is None: return
    idx, l, A = k; ATM = R.corrections['ATM']; prod = r.choice(['GSM', 'GAC']); proc, rel = ('CNES', r.choice(['RL01', 'RL02'])) if cnes else r.choice([('CSR', 'RL06'), ('CNES', 'RL03')])
    x, y = R.C.copy(), R.T.copy(); leak = R.fmt != 'ascii' and r.random() < 0.4
    if leak:
        files = []; lc = np.zeros_like(x); ls = np.zeros_like(y)
        for j in range(r.randint(1, 2)):
            a, b = (v * 0.2 for v in field(r, L + r.randint(0, 1), nt)); p = d / ('leak%d%s' % (j, ENDING[R.fmt])); ylms(a, b, R.t, R.mon).to_file(p, format=R.fmt); files.append(str(p))
            lc += a[:L + 1, :m + 1]; ls += b[:L + 1, :m + 1]
        if R.destripe: lc, ls = destriped(lc, ls, R.t, R.mon)
        x -= lc; y -= ls; p = d / 'leak.txt'; p.write_text('# files\n' + '\n'.join(files) + '\n'); kw.update(RECONSTRUCT=True, RECONSTRUCT_FILE=p)
    delta = R.directory / ('%s_%s_%s_DELTA_CLM_L%d%s%s%s_%03d-%03d.%s' % (proc, rel, prod, L, R.order, '_FL' if R.destripe else '', '_wATM' if ATM else '', R.mon[0], R.mon[-1], ENDING[R.fmt][1:]))
    if given:
        e = [np.abs(v[:, :, 0]) * 0.01 for v in field(r, L + r.randint(0, 1), 1)]; ylms(*e, 2010.0, 20).to_file(delta, format=R.fmt); e = [v[:L + 1, :m + 1] for v in e]
    else:
        e = [np.zeros((L + 1, m + 1)) for _ in range(2)]
        for a, b in zip(e, R.before):
            for i in range(L + 1):
                for j in range(min(i, m) + 1): z = gravtk.time_series.smooth(R.t, b[i, j], HFWTH=19 if cnes else 6); a[i, j] = np.sqrt(np.sum(z['noise']**2) / len(z['data']))
    base = dict(R.kw, MASCON_FILE=index, REDISTRIBUTE_MASCONS=spread, OUTPUT_DIRECTORY=d / 'series')
    with R.patched(ctx): out = calc_mascon(d, proc, rel, prod, L, R.RAD, MASCON_FORMAT=form, **base, **R.months, **R.corrections, **kw)
    R.requested(ctx, proc, rel, prod)
    pre = ('' if prod == 'GSM' else '_' + prod) + ('_MODEL' if R.gia else '') + ('_wATM' if ATM else ''); tail = '_L%d%s%s%s' % (L, R.order, R.radius, '_FL' if R.destripe else '')
    want = [x_ + pre + ('_OCN' if spread or R.ocean else '') + tail + ('_LEAKAGE' if leak else '') + '.txt' for x_ in names]
    ctx.check([p.name for p in out if p != delta] == want and all(p.parent == d / 'series' for p in out if p != delta) and (given or delta in out), 'files')
    Y = np.array([(x, y)[q][a, b] for q, a, b in idx]); mass = A.T @ Y / 1e15; E = np.array([e[q][a, b] for q, a, b in idx]); err = np.sqrt(((E[:, None] * A)**2).sum(axis=0)) / 1e15
    if np.abs(mass).max() > 9e3: return
    for k in range(n):
        v = np.loadtxt(d / 'series' / want[k], ndmin=2)
        ctx.check(v.shape == (nt, 5) and list(v[:, 0]) == list(R.mon), 'months of the series'); ctx.eq(v[:, 1], R.t, 'dates of the series', tol=3e-8, scale=1)
        ctx.eq(v[:, 2], mass[k], 'mass of the mascon', tol=max(R.tol, 1e-8), scale=float(np.abs(mass).max()) + 1e-3 + float((np.abs(A[:, k:k + 1]) * np.abs(Y)).sum(axis=0).max()) / 1e15)
        ctx.eq(v[:, 3], np.full(nt, err[k]), 'error of the mascon', tol=1e-6 if given and R.fmt == 'ascii' else 1e-7, scale=float(err[k]) + 1e-2); ctx.eq(v[:, 4], np.full(nt, area[k] / 1e10), 'area of the mascon', tol=1e-6, scale=1e-5 * 1e5)
    if not given:
        D = gravtk.harmonics().from_file(delta, format=R.fmt)
        ctx.eq(D.clm[:, :m + 1], e[0], 'cosine errors', tol=1e-6, scale=float(e[0].max())); ctx.eq(D.slm[:, :m + 1], e[1], 'sine errors', tol=1e-6, scale=float(e[1].max()) + 1e-30)
    # the harmonics of the series computed
    if leak or R.fmt == 'ascii' or form != R.fmt or R.ocean and not spread: return
    keep = {k: v for k, v in base.items() if k not in ('MEAN_FILE', 'MEANFORM', 'REMOVE_FILES', 'REMOVE_FORMAT', 'REDISTRIBUTE_REMOVED')}; GIA.asked = []
    with R.patched(ctx): mascon_reconstruct(prod, L, R.RAD, START=int(R.mon[0]), END=int(R.mon[-1]), ATM=ATM, RECONSTRUCT_FILE=d / 'list.txt', **keep)
    want = [x_ + pre + ('_OCN' if spread else '') + tail + '_%03d-%03d.%s' % (R.mon[0], R.mon[-1], ENDING[R.fmt][1:]) for x_ in names]
    ctx.check([os.path.basename(v) for v in (d / 'list.txt').read_text().split()] == want, 'list of the files')
    for k in range(n):
        v = np.loadtxt(d / 'series' / out[-n:][k].name, ndmin=2); z = gravtk.harmonics().from_file(d / 'series' / want[k], format=R.fmt)
        q = v[:, 2] * 1e15 / area[k]
        ctx.eq(np.atleast_3d(z.clm), C[:, :, k][:, :, None] * q, 'cosine coefficients of the series', tol=1e-10, scale=float(np.abs(C[:, :, k]).max() * np.abs(q).max()) + 1e-30)
        ctx.eq(np.atleast_3d(z.slm), T[:, :, k][:, :, None] * q, 'sine coefficients of the series', tol=1e-10, scale=float(np.abs(T[:, :, k]).max() * np.abs(q).max()) + 1e-30)
        ctx.eq(np.atleast_1d(z.time), v[:, 1], 'dates of the coefficients', tol=1e-13, scale=1); ctx.check(list(np.atleast_1d(z.month)) == list(R.mon), 'months of the coefficients')

# ------------------------------------------------------------------------------ scaled maps
@contract('scaled maps and their errors', S + 'scale_grace_maps.scale_grace_maps', symbolic=False, samples=40, bounded='drawn months, options and scaling factors of degrees to 8')
def scaled(ctx):
    import netCDF4, h5py
    r = ctx.rng; given = r.random() < 0.6; R = Run(ctx, r.randint(2, 4) if given else r.randint(13, 15)); d, L, m, nt = R.d, R.L, R.m, R.nt
    if R.fmt == 'ascii': R.fmt = R.kw['DATAFORM'] = r.choice(FORMATS[1:])
    iv = r.choice([1, 2]); dlon, dlat, lon, lat = grids(r, iv); ny, nx = len(lat), len(lon)
    if r.random() < 0.5: lon = lon + 180
    a = lambda lo, hi: np.array([r.uniform(lo, hi) for _ in range(ny * nx)]).reshape(ny, nx)
    k, err, power = a(-0.5, 2), a(0, 1), a(0.5, 20); bad = a(0, 1) < r.choice([0, 0.2]); z = (a(0, 1) < 0.1) & ~bad
    power[z] = 0; fill = r.choice([-9999.0, -99999.0])
    src = d / ('k' + ENDING[R.fmt])
    v = dict(kfactor=k, error=err, power=power)
    if R.fmt == 'netCDF4':
        with netCDF4.Dataset(src, 'w') as f:
            f.createDimension('lon', nx); f.createDimension('lat', ny); f.createVariable('lon', 'f8', ('lon',))[:] = lon; f.createVariable('lat', 'f8', ('lat',))[:] = lat
            for n, x in v.items(): f.createVariable(n, 'f8', ('lat', 'lon'), fill_value=fill)[:] = np.where(bad, fill, x)
    else:
        with h5py.File(src, 'w') as f:
            f['lon'], f['lat'] = lon, lat
            for n, x in v.items(): q = f.create_dataset(n, data=np.where(bad, fill, x)); q.attrs['_FillValue'] = np.float64(fill)
    lmin = r.randint(0, min(2, m)); ATM = R.corrections['ATM']; prefix = r.choice([None, 'mine_'])
    delta = R.directory / ('CSR_RL06_GSM_DELTA_CLM_L%d%s%s%s_%03d-%03d.%s' % (L, R.order, '_FL' if R.destripe else '', '_wATM' if ATM else '', R.mon[0], R.mon[-1], ENDING[R.fmt][1:]))
    if given:
        e = [np.abs(x[:, :, 0]) * 0.01 for x in field(r, L + r.randint(0, 1), 1)]; ns = r.randint(10, 40); ylms(*e, 2010.0, ns).to_file(delta, format=R.fmt); e = [x[:L + 1, :m + 1] for x in e]
    else:
        e = [np.zeros((L + 1, m + 1)) for _ in range(2)]; ns = nt - 12
        for a, b in zip(e, R.before):
            for i in range(L + 1):
                for j in range(min(i, m) + 1): q = gravtk.time_series.smooth(R.t, b[i, j], HFWTH=6); a[i, j] = np.sqrt(np.sum(q['noise']**2) / len(q['data']))
    with R.patched(ctx): out = scale_grace_maps(d, 'CSR', 'RL06', 'GSM', L, R.RAD, LMIN=lmin, DDEG=[dlon, dlat], INTERVAL=iv, SCALE_FILE=src, OUTPUT_DIRECTORY=d / 'maps', FILE_PREFIX=prefix, **R.kw, **R.months, **R.corrections)
    R.requested(ctx, 'CSR', 'RL06', 'GSM')
    pre = prefix or 'CSR_RL06_GSM%s%s_' % (R.title, '_model' if R.gia else ''); tail = 'cmwe_L%d%s%s%s_%03d-%03d.%s' % (L, R.order, R.radius, '_FL' if R.destripe else '', R.mon[0], R.mon[-1], ENDING[R.fmt][1:])
    names = [pre + x + tail for x in ('', 'ERROR_', 'DELTA_')]
    ctx.check([p.name for p in out if p != delta] == names and (given or delta in out), 'files')
    w = gravtk.units(lmax=L).harmonic(*R.LOVE).cmwe * R.smooth
    g = values(R.C, R.T, w, lon, lat, lmin) * k[:, :, None]
    P, _ = gravtk.plm_holmes(L, np.cos(np.radians(90 - lat))); P = (P[:, :m + 1] * (w * (np.arange(L + 1) >= lmin))[:, None, None])**2; mm = np.arange(m + 1)[:, None] * np.radians(lon)[None, :]
    D = k * np.sqrt((np.einsum('lmi,lm,mj->ij', P, e[0]**2, np.cos(mm)**2) + np.einsum('lmi,lm,mj->ij', P, e[1]**2, np.sin(mm)**2)) / ns)
    with np.errstate(divide='ignore', invalid='ignore'): F = np.nan_to_num(err * np.sqrt((g**2).sum(axis=2)) / power, nan=0, posinf=0, neginf=0)
    for n, x, date in zip(names, (g, F, D), (True, False, True)):
        y = gravtk.spatial().from_file(d / 'maps' / n, format=R.fmt, date=date); q = np.squeeze(y.data); x = np.squeeze(x); M = np.broadcast_to(bad[:, :, None], x.shape) if x.ndim == 3 else bad
        ctx.check(q.shape == x.shape and np.array_equal(np.squeeze(y.mask), M), 'valid cells'); sc = float(np.abs(x[~M]).max()) + 1e-30 if (~M).any() else 1
        ctx.eq(np.where(M, 0, q), np.where(M, 0, x), 'values of ' + n[len(pre):][:5], tol=max(R.tol, 1e-9) if given or n != names[2] else 1e-6, scale=sc)
        ctx.eq(y.lon, lon, 'longitudes', tol=1e-12, scale=1); ctx.eq(y.lat, lat, 'latitudes', tol=1e-12, scale=1)
        if n == names[0]: ctx.eq(np.atleast_1d(y.time), R.t, 'dates', tol=1e-13, scale=1); ctx.check(list(np.atleast_1d(y.month)) == list(R.mon), 'months')

# ------------------------------------------------------------------------------ regression of maps
TIDES = {'Q1': 9.1, 'O1': 13.6, 'P1': 171.2, 'S1': 322.1, 'K1': 2725.4, 'J1': 27.8, 'M2': 13.5, 'S2': 161.0, 'K2': 1362.7}
@contract('maps of the terms of a regression', S + 'regress_grace_maps.regress_grace_maps', symbolic=False, samples=40, bounded='drawn months, grids and terms, every format and unit')
def regressed(ctx):
    r = ctx.rng; d = pathlib.Path(ctx.tmpdir()); fmt = r.choice(FORMATS); iv = r.choice([1, 2, 3]); dlon, dlat = r.choice([60.0, 90.0, 45.0]), r.choice([60.0, 45.0, 90.0])
    if iv == 1: lon, lat = -180 + dlon * np.arange(round(360 / dlon) + 1), 90 - dlat * np.arange(round(180 / dlat) + 1)
    elif iv == 2: lon, lat = -180 + dlon / 2 + dlon * np.arange(round(360 / dlon)), 90 - dlat / 2 - dlat * np.arange(round(180 / dlat))
    else: x0, y0 = r.choice([-180.0, -40.0, 0.0]), r.choice([-90.0, -45.0, 0.0]); lon, lat = x0 + dlon / 2 + dlon * np.arange(r.randint(2, 3)), y0 + dlat * 1.5 - dlat * np.arange(2)
    if lat.max() > 90: return
    nt = r.randint(30, 36); k0 = r.choice([4, 180, 190]); mon = np.array(sorted(r.sample(range(k0, k0 + nt + 8), nt))); t = np.array([2002 + (k - 0.5) / 12 + r.uniform(-0.02, 0.02) for k in mon])
    missing = sorted(set(range(mon[0], mon[-1] + 1)) - set(mon)); missing += [1000] if r.random() < 0.5 else []
    unit = r.choice([1, 2, 3, 4, 5]); u = UNITS[unit]; L = r.randint(10, 60); M = r.choice([None, L, 8]); rad = r.choice([0, 300, 250.0]); fl = r.random() < 0.5
    tail = '_L%d%s%s%s_' % (L, 'M%d' % M if M not in (None, L) else '', '_r%.0fkm' % rad if rad else '', '_FL' if fl else '')
    f = np.array([round(r.uniform(-30, 30), 4) for _ in range(len(lat) * len(lon) * nt)]).reshape(len(lat), len(lon), nt)
    for i in range(nt):
        g = gravtk.spatial(fill_value=-9999.0); g.lon, g.lat, g.data, g.mask = lon.copy(), lat.copy(), f[:, :, i].copy(), np.zeros(f.shape[:2], dtype=bool); g.time, g.month = t[i], mon[i]
        g.to_file(d / ('pre_%s%s%03d.%s' % (u, tail, mon[i], ENDING[fmt][1:])), format=fmt)
    if fmt == 'ascii': t = np.array([float('%10.4f' % x) for x in t])
    order = r.choice([0, 1, 2]); tides = r.sample(sorted(TIDES), r.choice([0, 0, 1, 2])) if k0 == 180 or k0 == 190 else []
    if 'Q1' in tides and 'M2' in tides or not (t.min() < 2017.5 and t.max() > 2018.8): tides = [x for x in tides if False]
    cycles = r.sample([0.5, 1.0], r.randint(0, 2)) + [TIDES[x] / 365.25 for x in tides]; which = dict(zip([TIDES[x] / 365.25 for x in tides], tides)); r.shuffle(cycles)
    kw = dict(BOUNDS=[float(lon[0] - dlon / 2), float(lon[-1] + dlon / 2), float(lat[-1] - dlat / 2), float(lat[0] + dlat / 2)]) if iv == 3 else {}
    out = regress_grace_maps(L, rad, START=int(mon[0]), END=int(mon[-1]), MISSING=missing, MMAX=M, DESTRIPE=fl, UNITS=unit, DDEG=[dlon, dlat] if dlon != dlat or r.random() < 0.5 else [dlon], INTERVAL=iv, DATAFORM=fmt,
        ORDER=order, CYCLES=cycles, OUTPUT_DIRECTORY=d, FILE_PREFIX='pre_', **kw)
    # each cell of the maps is a series of its own
    names = ['x%d' % i for i in range(order + 1)]; columns = [(t - t.mean())**i for i in range(order + 1)]; pairs = []
    for c in cycles:
        for n, sel in ([(which[c] + 'GRC', t < 2018), (which[c] + 'GFO', t >= 2018)] if c in which else [({0.5: 'SEMI', 1.0: 'ANN'}[c], t > 0)]):
            pairs.append((n, len(names))); a = 2 * np.pi * t / c
            names += {'SEMI': ['SS', 'SC'], 'ANN': ['AS', 'AC']}.get(n) or [n[:2] + 'S' + n[2:], n[:2] + 'C' + n[2:]]; columns += [np.sin(a) * sel, np.cos(a) * sel]
    B = np.array(columns).T
    if np.linalg.cond(B) > 1e5 or nt - B.shape[1] < 3: return
    y = f.reshape(-1, nt).T; beta = np.linalg.lstsq(B, y, rcond=None)[0]; res = y - B @ beta; nu = nt - B.shape[1]; sse = (res**2).sum(axis=0)
    import scipy.stats
    # (the quantile of the code of property C17, at the degrees of freedom)
    q = gravtk.time_series.regress(t, y[:, 0], ORDER=order, CYCLES=[c for c in cycles if c not in which], TERMS=[x for c in cycles if c in which for x in gravtk.time_series.aliasing_terms(t, period=TIDES[which[c]])], CONF=0.95)
    std = np.sqrt(np.diag(np.linalg.inv(B.T @ B))[:, None] * (sse / nu)); w = scipy.stats.t.ppf(1 - 0.025, nu)
    ratio = float(q['error'][0] / std[0, 0]); ctx.check(abs(ratio - w) < 1e-6 * w, 'confidence of the errors')
    want = {n: (beta[i], std[i] * w) for i, n in enumerate(names)}
    for n, i in pairs:
        a, b = beta[i], beta[i + 1]; ea, eb = std[i] * w, std[i + 1] * w; R = np.hypot(a, b)
        want[n + '_AMPL'] = R, np.hypot(ea * a, eb * b) / R; want[n + '_PHASE'] = np.degrees(np.arctan2(b, a)) % 360, np.degrees(np.hypot(ea * b, eb * a) / R**2)
    K = B.shape[1] + 1; like = -0.5 * nt * (np.log(2 * np.pi) + 1 - np.log(nt) + np.log(sse)); tot = ((y - y.mean(axis=0))**2).sum(axis=0)
    for n, v in dict(SSE=sse, AIC=2 * K - 2 * like + 2 * K * (K + 1) / (nt - K - 1), BIC=np.log(nt) * K - 2 * like, R2Adj=1 - sse / tot * (nt - 1) / nu).items(): want['%s_x%d' % (n, order)] = v, None
    files = ['pre_%s%s%s_%03d-%03d.%s' % (u, tail, n, mon[0], mon[-1], ENDING[fmt][1:]) for n in want]
    ctx.check(sorted(p.name for p in out) == sorted(files), 'files')
    for (n, (v, e)), p in zip(want.items(), files):
        v = v.reshape(len(lat), len(lon)); e = None if e is None else e.reshape(v.shape)
        if fmt == 'ascii':
            rows = [[float(x) for x in line.split()] for line in (d / p).read_text().splitlines()]; ctx.check(len(rows) == v.size, 'cells')
            cells = {(x[0], x[1]): x[2:] for x in rows}
            g = np.array([[cells[(a, b)][0] for a in lon] for b in lat]); h = None if e is None else np.array([[cells[(a, b)][1] for a in lon] for b in lat]); tol, big = 1e-6, 60
        else:
            s = gravtk.spatial().from_file(d / p, format=fmt, date=False, field_mapping=dict(lon='lon', lat='lat', data='data', **({} if e is None else dict(error='error')))); tol, big = 1e-7, 0
            ctx.eq(s.lon, lon, 'longitudes', tol=1e-9, scale=1); ctx.eq(s.lat, lat, 'latitudes', tol=1e-9, scale=1); g, h = np.squeeze(s.data), None if e is None else np.squeeze(s.error)
            ctx.check(not np.any(s.mask), 'valid cells')
        if n.endswith('PHASE'): z = abs(g - v); ctx.check(np.all(np.minimum(z, 360 - z) < 1e-4) and np.all(g >= 0) and np.all(g <= 360), 'phase')
        else: ctx.eq(g, v, 'map of ' + n, tol=tol, scale=float(np.abs(v).max()) + big + n.startswith('R2'))
        if e is not None: ctx.eq(h, e, 'errors of ' + n, tol=tol, scale=float(np.abs(e).max()) + big)

# ------------------------------------------------------------------------------ the computations of the programs, whatever the files hold
from gravity_toolkit.harmonics import harmonics
from gravity_toolkit.units import units as earth_units
from contracts.common import legendre_callee, gauss_callee, R
from contracts.c29 import Given, Captured, Earth, any_filter
PI = np.pi

class Each(Captured):
    """stands in for the files of a grid: copies of the grids written"""
    def to_file(self, filename, format=None, date=True, **kw):
        g = gravtk.spatial(); g.lon, g.lat, g.data, g.time, g.month = self.lon, self.lat, self.data, self.time, self.month
        Captured.written.append((str(filename), format, date, g, kw)); open(filename, 'w').close()

class Drift:
    """stands in for a model of glacial isostatic adjustment: the rates given"""
    Y = None
    def __new__(cls, lmax=None, **kw): return object.__new__(cls)
    def __init__(self, lmax=None, **kw): pass
    def from_GIA(self, filename, GIA=None, mmax=None, **kw):
        Y = Drift.Y.copy(); Y.title = 'model'; Y.citation = 'someone'; return Y

# order, months, mean file, unit, smoothed, interval, removed fields, over the ocean, destriped
MAPS = [(None, 2, False, 1, False, 1, 1, False, False), ('given', 2, True, 2, True, 2, 0, False, False), (None, 1, True, 3, True, 3, 0, False, False), ('given', 2, True, 1, False, 2, 2, False, False), ('given', 2, True, 4, False, 1, 1, True, False), (None, 2, False, 5, False, 3, 1, True, False),
    (None, 2, True, 1, False, 2, 1, True, True), ('given', 2, False, 2, True, 1, 0, False, True)]
@contract('monthly maps are the filtered, scaled sums of the coefficients', S + 'grace_spatial_maps.grace_spatial_maps', samples=60, budget=200)
def mapped(ctx):
    F = legendre_callee(ctx); W = gauss_callee(ctx); d = pathlib.Path(ctx.tmpdir())
    L = ctx.int('LMAX', 1, draw=(1, 6)); M = ctx.int('MMAX', 1, draw=(1, 6)); ctx.assume(M <= L); lmin = ctx.int('LMIN', 0, draw=(0, 3)); ctx.assume(lmin <= L)
    order, nt, mean, unit, rad, iv, nr, ocean, filt = ctx.choice('case', MAPS if ctx.symbolic else MAPS + [('given', 1, False, u, w, v, k, o, x) for x in (False, True) for u in (1, 2, 3, 4, 5) for w in (False, True) for v in (1, 2, 3) for k in (0, 1) for o in (False, True)])
    m1 = L if order is None else M; mon = np.arange(nt) + 12; t0 = ctx.real('time', lo=2002, hi=2050, draw=(2002.0, 2020.0)); t = t0 + np.arange(nt) / ctx.lit('8.0')
    def ylms(x, k, l=L, m=m1):
        Y = harmonics(lmax=l, mmax=m); shape = (l + 1, m + 1) if k is None else (l + 1, m + 1, k)
        Y.clm = ctx.arr('clm' + x, shape); Y.slm = ctx.arr('slm' + x, shape)
        if k is not None: Y.time, Y.month = t, mon
        return Y, ctx.snap(Y.clm), ctx.snap(Y.slm)
    Y, C, T = ylms('', nt); Given.files = {}; Given.asked = []; Captured.written = []; kw = {}
    G, gc, gs = ylms(' of the drift', None); Drift.Y = G
    if mean: Given.files['mean'], mc, ms = ylms(' of the mean', None); kw.update(MEAN_FILE=d / 'mean', MEANFORM='netCDF4')
    else: mc, ms = ({(l, m): 0 for l in () for m in ()},) * 2
    rem = []
    for k in range(nr):
        Lr = ctx.int('lmax %d' % k, 1, draw=(1, 7)); ctx.assume(Lr >= L); A, ac, as_ = ylms(' removed %d' % k, nt, Lr, Lr); Given.files['removed%d' % k] = A; rem.append((ac, as_))
    O, oc, os_ = ylms(' of the ocean', None); ctx.assume(oc[0, 0] != 0) if ctx.symbolic else ctx.assume(abs(oc[0, 0]) > 0.1)
    hw = ctx.real('radius', lo=1, hi=5000, draw=(100.0, 800.0)) if rad else 0
    E = Earth(ctx.arr('hl', (L + 1,), lo=-3, hi=ctx.lit('0.9')), ctx.arr('kl', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')), ctx.arr('ll', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')))
    f = ctx.snap(earth_units(lmax=L).harmonic(*E).get(UNITS[unit]))
    nlon = ctx.int('nlon', 2, draw=(2, 9)); nlat = ctx.int('nlat', 2, draw=(2, 9)); ctx.hint(nlon, nlat, -nlon, -nlat)
    if not ctx.symbolic: ctx.assume(all(n - (iv == 1) not in (7,) for n in (nlon, nlat)) or iv == 3)
    if iv == 1: dx, dy, x0, y0 = 360 / (nlon - 1), 180 / (nlat - 1), -180, 90
    elif iv == 2: dx, dy = 360 / nlon, 180 / nlat; x0, y0 = -180 + dx / 2, 90 - dy / 2
    else:
        dx, dy = ctx.real('dlon', lo=ctx.lit('0.01'), draw=(0.5, 20.0)), ctx.real('dlat', lo=ctx.lit('0.01'), draw=(0.5, 10.0)); w, n = ctx.real('west', lo=-360, hi=360, draw=(-180.0, 180.0)), ctx.real('north', lo=-90, hi=90, draw=(0.0, 90.0))
        if not ctx.symbolic: dx, dy, w, n = (np.ceil(16 * v) / 16 for v in (dx, dy, w, n))
        x0, y0 = w + dx / 2, n - dy / 2; kw['BOUNDS'] = [w, w + nlon * dx, n - nlat * dy, n]
    months = lambda *a, **k: dict(clm=Y.clm, slm=Y.slm, time=t, month=mon, l=np.arange(L + 1), m=np.arange(m1 + 1), title='', directory=d, attributes={'lineage': []})
    D = (any_filter(ctx, (L + 1, m1 + 1)) if filt else (None, lambda k, l, m, x: x))
    with Patched(ctx, {**({('gravity_toolkit.harmonics', 'destripe_harmonics'): D[0]} if filt else {}), ('gravity_toolkit', 'harmonics'): Given, ('gravity_toolkit', 'spatial'): Each, ('gravity_toolkit', 'load_love_numbers'): lambda *a, **k: E, ('gravity_toolkit', 'gia'): Drift,
                       ('gravity_toolkit.harmonics', 'adjust_months'): lambda m: m,   # (the months of the drift are those of the solutions)
                       ('gravity_toolkit', 'grace_input_months'): months, ('gravity_toolkit', 'ocean_stokes'): lambda *a, **k: O}):
        grace_spatial_maps(d, 'CSR', 'RL06', 'GSM', L, hw, DESTRIPE=filt, MMAX=None if order is None else M, LMIN=lmin, LOVE_NUMBERS=0, REFERENCE='CF', UNITS=unit, DDEG=[dx, dy], INTERVAL=iv, GIA='ascii', GIA_FILE=d / 'gia', DATAFORM='netCDF4',
            REMOVE_FILES=[d / ('removed%d' % k) for k in range(nr)], REMOVE_FORMAT=['netCDF4'], REDISTRIBUTE_REMOVED=ocean, OUTPUT_DIRECTORY=d, FILE_PREFIX='map_', **kw)
    ctx.check(len(Captured.written) == nt and all(a[1] == 'netCDF4' and a[2] for a in Captured.written), 'files written')
    P = F(L, lambda i: np.cos((90 - (y0 - i * dy)) * PI / 180), nlat); w = W(hw, L) if rad else None
    one = lambda l: f[l] * (2 * PI * w(l) if rad else 1)
    own = lambda x, l, m, q: x[l, m, q] - ctx.ite(m <= l, ctx.sum(0, nt, lambda p: x[l, m, p]) / nt, 0)
    def removed(k, l, m, q):
        e = 0
        for a in rem:
            x = a[k][l, m, q]
            if ocean: x = x - ctx.ite(m <= l, a[0][0, 0, q] / oc[0, 0] * (oc, os_)[k][l, m], 0)
            e = e + D[1](k, l, m, x)
        return e
    def value(g, i, j, q):
        c = lambda l, m: one(l) * (D[1](0, l, m, C[l, m, q] - mc[l, m] if mean else own(C, l, m, q)) - gc[l, m] * (t[q] - ctx.lit('2003.3')) - removed(0, l, m, q))
        s = lambda l, m: one(l) * (D[1](1, l, m, T[l, m, q] - ms[l, m] if mean else own(T, l, m, q)) - gs[l, m] * (t[q] - ctx.lit('2003.3')) - removed(1, l, m, q))
        e = ctx.sum(0, m1 + 1, lambda m: np.cos(m * ((x0 + j * dx) * PI / 180)) * ctx.sum(0, L + 1, lambda l: P(l, m, i) * ctx.ite(lmin <= l, c(l, m), 0))) + \
            ctx.sum(0, m1 + 1, lambda m: np.sin(m * ((x0 + j * dx) * PI / 180)) * ctx.sum(0, L + 1, lambda l: P(l, m, i) * ctx.ite(lmin <= l, s(l, m), 0)))
        ctx.eq(g.data[i, j], e, 'sum of the coefficients', tol=1e-8, scale=1e9)
    for q, (name, fmt, date, g, k) in enumerate(Captured.written):
        ctx.check(os.path.basename(name).endswith('_%03d.nc' % (12 + q)), 'name of the file')
        ctx.shape(g.data, (nlat, nlon)); ctx.eq(g.time, t[q], 'date', tol=0); ctx.eq(g.month, 12 + q, 'month', tol=0)
        ctx.forall(R(nlat, nlon), lambda i, j: value(g, i, j, q))
    g = Captured.written[0][3]; ctx.forall(R(nlon), lambda j: ctx.eq(g.lon[j], x0 + j * dx, 'longitudes')); ctx.forall(R(nlat), lambda i: ctx.eq(g.lat[i], y0 - i * dy, 'latitudes'))

class Numbers:
    """numpy, with the tables of text files given"""
    def __init__(self, np, table): self._np, self._table = np, table
    def __getattr__(self, name): return getattr(self._np, name)
    def loadtxt(self, name, **kw): return self._table(os.path.basename(str(name)))

class Kept(Given):
    """stands in for the files of harmonics: those given, and those written"""
    def to_file(self, filename, format=None, date=True, **kw):
        Kept.written.append((str(filename), format, date, self)); open(filename, 'w').close()
    def from_file(self, *a, **k):
        Y = Given.from_file(self, *a, **k); Y.__class__ = Kept; return Y
    def truncate(self, *a, **k):
        Y = Given.truncate(self, *a, **k); Y.__class__ = Kept; return Y
    def scale(self, var):
        Y = Given.scale(self, var); Y.__class__ = Kept; return Y

@contract('harmonics of a mascon series are its coefficients times the mass', S + 'mascon_reconstruct.mascon_reconstruct', samples=40, budget=120)
def rebuilt(ctx):
    d = pathlib.Path(ctx.tmpdir()); order, n, ocean = ctx.choice('case', [(None, 1, False), ('given', 2, True), ('given', 1, False), (None, 1, True)])
    L = ctx.int('LMAX', 1, draw=(1, 6)); M = ctx.int('MMAX', 1, draw=(1, 6)); ctx.assume(M <= L); m1 = L if order is None else M; nt = ctx.int('months', 1, draw=(1, 5)); Given.asked = []; Kept.written = []
    def ylms(x, l, m):
        Y = harmonics(lmax=l, mmax=m); Y.clm = ctx.arr('clm' + x, (l + 1, m + 1)); Y.slm = ctx.arr('slm' + x, (l + 1, m + 1)); return Y, ctx.snap(Y.clm), ctx.snap(Y.slm)
    Lf = ctx.int('lmax of the files', 1, draw=(1, 7)); ctx.assume(Lf >= L); mas, tab = [], {}; Given.files = {}
    for k in range(n):
        Y, c, s = ylms(' of mascon %d' % k, Lf, Lf); Given.files['m%d.nc' % k] = Y; ctx.assume(c[0, 0] != 0) if ctx.symbolic else ctx.assume(abs(c[0, 0]) > 0.1); mas.append((c, s))
        tab[k] = ctx.arr('series %d' % k, (nt, 5), draw=(-50.0, 50.0))
    O, oc, os_ = ylms(' of the ocean', L, m1); ctx.assume(oc[0, 0] != 0) if ctx.symbolic else ctx.assume(abs(oc[0, 0]) > 0.1)
    E = Earth(ctx.arr('hl', (L + 1,), lo=-3, hi=ctx.lit('0.9')), ctx.arr('kl', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')), ctx.arr('ll', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')))
    (d / 'index.txt').write_text('\n'.join(str(d / ('m%d.nc' % k)) for k in range(n)) + '\n'); read = []
    def table(name): read.append(name); return tab[int(name[1])]
    f = earth_units(lmax=L).harmonic(*E); area = [4 * PI * f.rad_e**3 * f.rho_e * c[0, 0] / 3 for c, s in mas]
    with Patched(ctx, {('gravity_toolkit', 'harmonics'): Kept, ('gravity_toolkit', 'load_love_numbers'): lambda *a, **k: E, ('gravity_toolkit', 'gia'): type('NoModel', (), dict(__init__=lambda self, **k: None, from_GIA=lambda self, *a, **k: self)),
                       ('gravity_toolkit', 'ocean_stokes'): lambda *a, **k: O, (S + 'mascon_reconstruct', 'np'): Numbers(np, table)}):
        mascon_reconstruct('GSM', L, 0, START=4, END=20, MMAX=None if order is None else M, LOVE_NUMBERS=0, REFERENCE='CF', DATAFORM='netCDF4', MASCON_FILE=d / 'index.txt', REDISTRIBUTE_MASCONS=ocean, RECONSTRUCT_FILE=d / 'out.txt', OUTPUT_DIRECTORY=d)
    ctx.check([x[1] for x in read] == [str(k) for k in range(n)] and len(Kept.written) == n, 'files')
    for k, (name, fmt, date, Y) in enumerate(Kept.written):
        ctx.check(os.path.basename(name).startswith('M%d' % k) and fmt == 'netCDF4' and date, 'file written'); ctx.shape(Y.clm, (L + 1, m1 + 1, nt)); ctx.shape(Y.slm, (L + 1, m1 + 1, nt)); ctx.shape(Y.time, (nt,))
        t = ctx.snap(tab[k])
        def one(l, m, q):
            for x, j, o in ((Y.clm, 0, oc), (Y.slm, 1, os_)):
                a = mas[k][j][l, m] - (ctx.ite(m <= l, mas[k][0][0, 0] / oc[0, 0] * o[l, m], 0) if ocean else 0)
                ctx.eq(x[l, m, q], a * ctx.lit('1e15') * t[q, 2] / area[k], 'coefficients', tol=1e-10, scale=1)
        ctx.forall(R(L + 1, m1 + 1, nt), one); ctx.forall(R(nt), lambda q: ctx.eq(Y.time[q], t[q, 1], 'dates', tol=0))

Grid = gravtk.spatial
class Cells(Grid):
    """stands in for the files of grids: those written"""
    def _keep(self, how, filename, date, kw):
        g = Grid(); g.lon, g.lat, g.data, g.mask, g.fill_value = self.lon, self.lat, self.data.copy(), self.mask.copy(), self.fill_value; g.time, g.month = getattr(self, 'time', None), getattr(self, 'month', None)
        Cells.written.append((os.path.basename(str(filename)), date, g)); open(filename, 'w').close()
    def to_netCDF4(self, filename, date=True, **kw): self._keep('netCDF4', filename, date, kw)
    def scale(self, var):
        g = Grid.scale(self, var); g.__class__ = Cells; return g
    def copy(self):
        g = Grid.copy(self); g.__class__ = Cells; return g

class Factors:
    """stands in for a file of scaling factors"""
    grid = None
    def from_netCDF4(self, filename, date=True, field_mapping=None, **kw):
        Factors.asked.append((str(filename), date, dict(field_mapping))); return Factors.grid

@contract('scaled maps are the scaled sums of the coefficients', S + 'scale_grace_maps.scale_grace_maps', samples=40, budget=200)
def rescaled(ctx):
    F = legendre_callee(ctx); W = gauss_callee(ctx); d = pathlib.Path(ctx.tmpdir())
    L = ctx.int('LMAX', 1, draw=(1, 6)); M = ctx.int('MMAX', 1, draw=(1, 6)); ctx.assume(M <= L); lmin = ctx.int('LMIN', 0, draw=(0, 3)); ctx.assume(lmin <= L)
    order, nt, mean, rad, nr = ctx.choice('case', [(None, 2, True, False, 1), ('given', 1, True, True, 0), ('given', 2, False, False, 0)])
    m1 = L if order is None else M; mon = np.arange(nt) + 12; t0 = ctx.real('time', lo=2002, hi=2050, draw=(2002.0, 2020.0)); t = t0 + np.arange(nt) / ctx.lit('8.0')
    def ylms(x, k, l=L, m=m1, **kw):
        Y = harmonics(lmax=l, mmax=m); shape = (l + 1, m + 1) if k is None else (l + 1, m + 1, k)
        Y.clm = ctx.arr('clm' + x, shape, **kw); Y.slm = ctx.arr('slm' + x, shape, **kw)
        if k is not None: Y.time, Y.month = t, mon
        return Y, ctx.snap(Y.clm), ctx.snap(Y.slm)
    Y, C, T = ylms('', nt); Given.files = {}; Given.asked = []; Cells.written = []; Factors.asked = []; kw = {}
    G, gc, gs = ylms(' of the drift', None); Drift.Y = G
    if mean: Given.files['mean'], mc, ms = ylms(' of the mean', None); kw.update(MEAN_FILE=d / 'mean', MEANFORM='netCDF4')
    rem = []
    for k in range(nr): Given.files['removed%d' % k], ac, as_ = ylms(' removed %d' % k, nt); rem.append((ac, as_))
    D, dc, ds = ylms(' of the errors', None); ns = ctx.int('months of the errors', 1, draw=(1, 40)); D.time, D.month = t0, ns
    D.update_dimensions()
    hw = ctx.real('radius', lo=1, hi=5000, draw=(100.0, 800.0)) if rad else 0
    delta = 'CSR_RL06_GSM_DELTA_CLM_L{0:d}{1}_{2:03d}-{3:03d}.nc'.format(L, '' if order is None or not ctx.symbolic and M == L else 'M{0:d}'.format(M), 12, 11 + nt); (d / delta).write_text(''); Given.files[delta] = D
    if order is not None and ctx.symbolic: ctx.assume(M < L)
    E = Earth(ctx.arr('hl', (L + 1,), lo=-3, hi=ctx.lit('0.9')), ctx.arr('kl', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')), ctx.arr('ll', (L + 1,), lo=ctx.lit('-0.9'), hi=ctx.lit('0.9')))
    f = ctx.snap(earth_units(lmax=L).harmonic(*E).cmwe); ny, nx = ctx.int('nlat', 2, draw=(2, 5)), ctx.int('nlon', 2, draw=(2, 5))
    K = Grid(); K.lon, K.lat = ctx.arr('lon', (nx,), draw=(-180.0, 180.0)), ctx.arr('lat', (ny,), lo=-90, hi=90, draw=(-90.0, 90.0)); K.data, K.error = ctx.arr('factor', (ny, nx), draw=(0.5, 2.0)), ctx.arr('error of the factor', (ny, nx), draw=(0.0, 1.0))
    K.magnitude = ctx.arr('magnitude', (ny, nx), lo=ctx.lit('0.01'), draw=(0.5, 2.0)); K.mask = ctx.arr('invalid', (ny, nx), kind='b'); Factors.grid = K
    k0, e0, p0, bad = ctx.snap(K.data), ctx.snap(K.error), ctx.snap(K.magnitude), ctx.snap(K.mask); lon, lat = ctx.snap(K.lon), ctx.snap(K.lat)
    months = lambda *a, **k: dict(clm=Y.clm, slm=Y.slm, time=t, month=mon, l=np.arange(L + 1), m=np.arange(m1 + 1), title='', directory=d, attributes={'lineage': []})
    with Patched(ctx, {('gravity_toolkit', 'harmonics'): Given, ('gravity_toolkit', 'spatial'): Cells, ('gravity_toolkit', 'scaling_factors'): Factors, ('gravity_toolkit', 'load_love_numbers'): lambda *a, **k: E, ('gravity_toolkit', 'gia'): Drift,
                       ('gravity_toolkit.harmonics', 'adjust_months'): lambda m: m, ('gravity_toolkit', 'grace_input_months'): months}):
        scale_grace_maps(d, 'CSR', 'RL06', 'GSM', L, hw, MMAX=None if order is None else M, LMIN=lmin, LOVE_NUMBERS=0, REFERENCE='CF', DDEG=[1.0, 1.0], INTERVAL=1, GIA='ascii', GIA_FILE=d / 'gia', DATAFORM='netCDF4',
            REMOVE_FILES=[d / ('removed%d' % k) for k in range(nr)], REMOVE_FORMAT=['netCDF4'], SCALE_FILE=d / 'k', OUTPUT_DIRECTORY=d, FILE_PREFIX='map_', **kw)
    ctx.check([x[0][:9] for x in Cells.written] == ['map_cmwe_', 'map_ERROR', 'map_DELTA'] and [x[1] for x in Cells.written] == [True, False, True], 'files written')
    ctx.check(Factors.asked[0][2] == dict(lon='lon', lat='lat', data='kfactor', error='error', magnitude='power'), 'fields of the factors')
    P = F(L, lambda i: np.cos((90 - lat[i]) * PI / 180), ny); w = W(hw, L) if rad else None; one = lambda l: f[l] * (2 * PI * w(l) if rad else 1)
    own = lambda x, l, m, q: x[l, m, q] - ctx.ite(m <= l, ctx.sum(0, nt, lambda p: x[l, m, p]) / nt, 0)
    g, e, z = (x[2] for x in Cells.written); gd, ed, zd = ctx.snap(g.data), ctx.snap(e.data), ctx.snap(z.data); fill = ctx.lit('-9999.0')
    for x, s in ((g, (ny, nx, nt)), (e, (ny, nx)), (z, (ny, nx))): ctx.shape(x.data, s)
    def value(i, j, q):
        c = lambda l, m: one(l) * ((C[l, m, q] - mc[l, m] if mean else own(C, l, m, q)) - gc[l, m] * (t[q] - ctx.lit('2003.3')) - (rem[0][0][l, m, q] if nr else 0))
        s = lambda l, m: one(l) * ((T[l, m, q] - ms[l, m] if mean else own(T, l, m, q)) - gs[l, m] * (t[q] - ctx.lit('2003.3')) - (rem[0][1][l, m, q] if nr else 0))
        v = ctx.sum(0, m1 + 1, lambda m: np.cos(m * (lon[j] * PI / 180)) * ctx.sum(0, L + 1, lambda l: P(l, m, i) * ctx.ite(lmin <= l, c(l, m), 0))) + \
            ctx.sum(0, m1 + 1, lambda m: np.sin(m * (lon[j] * PI / 180)) * ctx.sum(0, L + 1, lambda l: P(l, m, i) * ctx.ite(lmin <= l, s(l, m), 0)))
        ctx.when(ctx.lnot(bad[i, j]), lambda: ctx.eq(gd[i, j, q], k0[i, j] * v, 'scaled sum', tol=1e-8, scale=1e9)); ctx.when(bad[i, j], lambda: ctx.eq(gd[i, j, q], fill, 'invalid cell', tol=0))
    for q in range(nt): ctx.forall(R(ny, nx), lambda i, j: value(i, j, q)); ctx.eq(g.time[q], t[q], 'dates', tol=0); ctx.eq(g.month[q], 12 + q, 'months', tol=0)
    def errors(i, j):
        v = ctx.sum(0, nt, lambda q: gd[i, j, q]**2)
        ctx.when(ctx.lnot(bad[i, j]), lambda: ctx.when(ed[i, j] != fill, lambda: ctx.eq((ed[i, j] * p0[i, j])**2, e0[i, j]**2 * v, 'error of the scaling', tol=1e-8, scale=1e9)))
        x = ctx.sum(0, m1 + 1, lambda m: np.cos(m * (lon[j] * PI / 180))**2 * ctx.sum(0, L + 1, lambda l: P(l, m, i)**2 * (one(l) * ctx.ite(lmin <= l, dc[l, m], 0))**2 / ns)) + \
            ctx.sum(0, m1 + 1, lambda m: np.sin(m * (lon[j] * PI / 180))**2 * ctx.sum(0, L + 1, lambda l: P(l, m, i)**2 * (one(l) * ctx.ite(lmin <= l, ds[l, m], 0))**2 / ns))
        ctx.when(ctx.lnot(bad[i, j]), lambda: ctx.eq(zd[i, j]**2, k0[i, j]**2 * x, 'error of the harmonics', tol=1e-8, scale=1e9)); ctx.when(bad[i, j], lambda: ctx.eq(zd[i, j], fill, 'invalid cell', tol=0))
    ctx.forall(R(ny, nx), errors)
