import gzip, io, os, pathlib, shutil, zipfile
import numpy as np
import netCDF4, h5py
from dv.ctx import contract
from contracts.c08 import packed, EXT
from contracts.common import mk_grid, file_callees, sh
from gravity_toolkit.spatial import spatial, scaling_factors
from gravity_toolkit.time import calendar_to_grace, adjust_months
S = 'gravity_toolkit.spatial.spatial.'

def axes(ctx):
    """coordinates of a grid: (latitudes, longitudes, spacing)"""
    d = ctx.choice('spacing', [30.0, 45.0, 22.5, 10.0, 7.2])
    node = ctx.choice('nodes', [False, True]); west = ctx.choice('west', [False, True])
    n = int(round(180 / d))
    lat = 90 - d * np.arange(n + 1) if node else 90 - d / 2 - d * np.arange(n)
    lon = d * np.arange(2 * n + 1) if node else d / 2 + d * np.arange(2 * n)
    if west: lon = lon - 180
    return lat, lon, d

def region(ctx):
    ny, nx = ctx.rng.randint(2, 7), ctx.rng.randint(2, 7)
    if ctx.rng.random() < 0.4: nx = ny
    return np.sort(ctx.arr('lat', (ny,), draw=(-90.0, 90.0)))[::ctx.rng.choice([1, -1])], np.sort(ctx.arr('lon', (nx,), draw=(-180.0, 360.0)))

def grid(ctx, lat, lon, nt=None, fill=True, date=True, invalid=True):
    sh = (len(lat), len(lon)) if nt is None else (len(lat), len(lon), nt)
    g = spatial(fill_value=ctx.choice('fill', [-9999.0, 1e20, np.nan]) if fill else None)
    g.lat, g.lon = np.array(lat), np.array(lon)
    g.data = ctx.arr('data', sh, draw=(-300.0, 300.0))
    g.mask = (ctx.arr('mask', sh, draw=(0.0, 1.0)) < 0.2) if invalid and fill else np.zeros(sh, dtype=bool)
    if date:
        g.time = ctx.real('time', draw=(2002.0, 2020.0)) if nt is None else np.sort(ctx.arr('time', (nt,), draw=(2002.0, 2020.0)))
        g.month = adjust_months(calendar_to_grace(g.time))
    g.update_mask()
    return g

def compare(ctx, x, g, nt, date, label=''):
    one = nt is None or nt == 1
    d, m = g.data, g.mask
    if np.ndim(d) == 3 and one: d, m = d[:, :, 0], m[:, :, 0]
    ctx.shape(x.data, d.shape)
    ctx.check(np.array_equal(np.asarray(x.lat), g.lat) and np.array_equal(np.asarray(x.lon), g.lon), label + 'coordinates')
    ctx.check(np.shape(x.mask) == m.shape and np.array_equal(np.asarray(x.mask), m), label + 'validity')
    ctx.check(np.array_equal(np.where(m, 0, np.asarray(x.data)), np.where(m, 0, d)), label + 'values')
    if g.fill_value is not None: ctx.check(ctx.same(x.fill_value, g.fill_value), label + 'fill value')
    if date:
        t = np.atleast_1d(np.asarray(g.time))
        ctx.check(np.array_equal(np.atleast_1d(np.asarray(x.time)), t), label + 'dates')
        ctx.check(np.array_equal(np.atleast_1d(np.asarray(x.month)), np.atleast_1d(adjust_months(calendar_to_grace(t)))), label + 'months')
    else: ctx.check(x.time is None and x.month is None, 'no date')

@contract('grids read back as they were written', [S + k for k in ('from_netCDF4', 'to_netCDF4', 'from_HDF5', 'to_HDF5', 'from_file', 'to_file')], symbolic=False, bounded='drawn grids', samples=150)
def roundtrip(ctx):
    fmt = ctx.choice('format', ['netCDF4', 'HDF5']); date = ctx.choice('date', [True, True, False])
    nt = ctx.choice('nt', [None, None, 1, 2, 4]) if date else None
    g = grid(ctx, *region(ctx), nt, ctx.choice('filled', [True, True, False]), date)
    ref = g.copy(); ref.time, ref.month = g.time, g.month
    names = ctx.choice('names', [{}, dict(varname='water'), dict(varname='v', lonname='x', latname='y', timename='t')])
    if not date: names = {k: v for k, v in names.items() if k != 'timename'}
    more = {k: v for k, v in (('units', 'cmwe'), ('longname', 'Water'), ('title', 'T'), ('source', 'S'), ('reference', 'R')) if ctx.choice(k, [True, False])}
    f = pathlib.Path(ctx.tmpdir()) / ('grid' + EXT[fmt]); via = ctx.choice('via', [False, True]); how = ctx.choice('container', [None, None, 'gzip', 'zip', 'bytes'])
    if via: g.to_file(f, format=fmt, date=date, **names, **more)
    else: getattr(g, 'to_' + fmt)(ctx.choice('name', [str, pathlib.Path])(f), date=date, **names, **more)
    q, c = packed(ctx, f, how)
    if c is None and ctx.choice('case', [False, True]): q = q.with_name(q.name.upper())
    kw = dict(names, **({'compression': c} if c else {}))
    x = spatial().from_file(q, format=fmt, date=date, **kw) if via else getattr(spatial(), 'from_' + fmt)(q, date=date, **kw)
    compare(ctx, x, ref, nt, date)
    a = x.attributes['data']
    for k, n in (('units', 'units'), ('longname', 'long_name')): ctx.check(a.get(n) == more.get(k), 'attribute ' + n)
    for k in ('title', 'source', 'reference'): ctx.check(x.attributes['ROOT'].get(k) == more.get(k), 'attribute ' + k)
    ctx.check(x.attributes['lat'].get('units') == 'degrees_north' and x.attributes['lon'].get('units') == 'degrees_east', 'units of the coordinates')

@contract('errors are written and read with their grid', [S + k for k in ('from_netCDF4', 'to_netCDF4', 'from_HDF5', 'to_HDF5')], symbolic=False, bounded='drawn grids', samples=30)
def errors(ctx):
    fmt = ctx.choice('format', ['netCDF4', 'HDF5']); nt = ctx.choice('nt', [None, 3])
    g = grid(ctx, *region(ctx), nt); g.error = ctx.arr('error', g.data.shape, draw=(0.0, 1.0)); g.update_mask()
    ref = g.copy(); e = ctx.snap(g.error)
    fields = dict(lon='lon', lat='lat', data='z', error='sigma', time='time')
    attributes = {'ROOT': {'title': 'T'}}
    for k in fields.values(): attributes[k] = {'units': 'u_' + k, 'long_name': 'n_' + k}
    f = pathlib.Path(ctx.tmpdir()) / ('grid' + EXT[fmt])
    getattr(g, 'to_' + fmt)(f, field_mapping=fields, attributes=attributes)
    x = getattr(spatial(), 'from_' + fmt)(f, field_mapping=dict(fields))
    compare(ctx, x, ref, nt, True)
    ctx.check(np.array_equal(np.where(ref.mask, 0, x.error), np.where(ref.mask, 0, e)), 'errors')
    for k, n in fields.items(): ctx.check(x.attributes[k]['units'] == 'u_' + n and x.attributes[k]['long_name'] == 'n_' + n, 'attributes')
    ctx.check(x.attributes['ROOT']['title'] == 'T', 'title')

@contract('grids stored by longitude and latitude are turned', [S + 'from_netCDF4', S + 'from_HDF5'], symbolic=False, bounded='drawn grids', samples=30)
def turned(ctx):
    fmt = ctx.choice('format', ['netCDF4', 'HDF5'])
    lat, lon = region(ctx)
    if len(lat) == len(lon): return
    z = ctx.arr('z', (len(lon), len(lat))); f = pathlib.Path(ctx.tmpdir()) / 'grid'; t = 2005.25
    if fmt == 'netCDF4':
        with netCDF4.Dataset(f, 'w') as d:
            d.createDimension('lat', len(lat)); d.createDimension('lon', len(lon)); d.createDimension('time', 1)
            for k, v in (('lat', lat), ('lon', lon), ('time', [t])): d.createVariable(k, 'f8', (k,))[:] = v
            d.createVariable('z', 'f8', ('lon', 'lat'))[:] = z
    else:
        with h5py.File(f, 'w') as d:
            for k, v in (('lat', lat), ('lon', lon), ('time', [t]), ('z', z)): d.create_dataset(k, data=v)
    x = getattr(spatial(), 'from_' + fmt)(f)
    ctx.check(np.array_equal(x.data, z.T) and not np.any(x.mask), 'values')
    ctx.check(np.array_equal(x.lat, lat) and np.array_equal(x.lon, lon), 'coordinates'); ctx.eq(x.time, t, 'date', tol=0)

def lookup(x):
    return {(round(float(a), 6), round(float(b), 6)): (i, j) for i, a in enumerate(x.lat) for j, b in enumerate(x.lon)}

@contract('text keeps the valid cells of a global grid', [S + 'from_ascii', S + 'to_ascii'], symbolic=False, bounded='drawn grids', samples=80)
def text(ctx):
    lat, lon, d = axes(ctx); date = ctx.choice('date', [True, False])
    g = grid(ctx, lat, lon, None, True, date); error = ctx.choice('error', [False, False, True])
    for i in range(len(lat)): g.mask[i, i % len(lon)] = False                 # coordinates are known from the cells listed
    for j in range(len(lon)): g.mask[j % len(lat), j] = False
    g.data = np.where(g.mask, g.fill_value, ctx.arr('values', g.data.shape, draw=(-300.0, 300.0)))
    if error: g.error = ctx.arr('error_', g.data.shape, draw=(0.0, 1.0))
    f = pathlib.Path(ctx.tmpdir()) / 'grid.txt'; via = ctx.choice('via', [False, True]); how = ctx.choice('container', [None, None, 'gzip', 'zip', 'bytes'])
    if via: g.to_file(f, format='ascii', date=date)
    else: g.to_ascii(f, date=date)
    lines = f.read_text().splitlines()
    ctx.check(len(lines) == int(np.sum(~g.mask)), 'a line for every valid cell')
    header = ctx.choice('header', [0, 2])
    if header: f.write_text('# first 1 2 3 4\nsecond\n' + '\n'.join(lines) + '\n')
    q, c = packed(ctx, f, how)
    kw = dict(spacing=[d, d], nlat=len(lat), nlon=len(lon)) if ctx.choice('dimensions', ['number', 'extent']) == 'number' else dict(extent=[lon[0], lon[-1], lat[-1], lat[0]], **ctx.choice('with', [dict(nlat=len(lat), nlon=len(lon)), dict(spacing=[d, d])]))
    if error: kw['columns'] = ['lon', 'lat', 'data', 'error'] + (['time'] if date else [])
    if header: kw['header'] = header
    if c: kw['compression'] = c
    x = spatial(fill_value=g.fill_value).from_ascii(q, date=date, **kw) if not via else spatial().from_file(q, format='ascii', date=date, **kw)
    ctx.shape(x.data, g.data.shape)
    at = lookup(x)
    ctx.check(len(at) == g.data.size, 'coordinates are different')
    for i in range(len(lat)):
        for j in range(len(lon)):
            k = at.get((round(float(lat[i]), 6), round(float(lon[j]), 6)))
            ctx.check(k is not None, 'coordinates of the grid')
            ctx.check(bool(x.mask[k]) == bool(g.mask[i, j]), 'validity')
            if not g.mask[i, j]: ctx.check(abs(x.data[k] - g.data[i, j]) <= 5.1e-5, 'values to the printed precision')
    if date:
        ctx.check(abs(float(x.time) - g.time) <= 5.1e-5, 'date to the printed precision')
        ctx.check(int(x.month) == int(adjust_months(calendar_to_grace(np.array(round(float(x.time), 9))))), 'month of the date')
    else: ctx.check(x.time is None and x.month is None, 'no date')
    ctx.raises((ValueError,), lambda: spatial().from_ascii(q if how != 'bytes' else io.BytesIO(b''), date=date, **({'compression': c} if c else {})), 'grids of unknown dimensions are refused')

@contract('an index lists the grids of a series once and gives it back', [S + k for k in ('to_index', 'from_index', 'from_list', 'compressuser')], symbolic=False, bounded='drawn series of up to 6 epochs', samples=40)
def index(ctx):
    fmt = ctx.choice('format', ['netCDF4', 'HDF5', 'ascii']); n = ctx.choice('n', [1, 2, 6])
    if fmt == 'ascii':
        lat, lon, d = axes(ctx); kw = dict(spacing=[d, d], nlat=len(lat), nlon=len(lon), extent=[lon[0], lon[-1], lat[-1], lat[0]])
    else: lat, lon = region(ctx); kw = {}
    g = grid(ctx, lat, lon, n, invalid=fmt != 'ascii'); g.data = np.where(g.mask, g.fill_value, np.round(g.data, 4))
    g.time = np.round(2003 + np.arange(n) / 4.0 + 0.04, 4); g.month = adjust_months(calendar_to_grace(g.time))
    tmp = pathlib.Path(ctx.tmpdir()); files = [tmp / ('part_%02d%s' % (i, EXT[fmt])) for i in range(n)]; f = tmp / 'index.txt'
    home = os.environ.get('HOME')
    try:
        if ctx.choice('home', [False, True]): os.environ['HOME'] = str(tmp)
        g.to_index(f, files, format=fmt)
        lines = f.read_text().splitlines()
        ctx.check([pathlib.Path(l).expanduser() for l in lines] == files, 'every file is listed once, in order')
        if ctx.choice('comments', [False, True]): lines = ['# a comment', ''] + lines[:1] + ['% another'] + lines[1:]
        back = ctx.choice('reversed', [False, True]); order = ctx.choice('sort', [True, False])
        if back: lines = lines[::-1]
        f.write_text('\n'.join(lines) + '\n')
        x = spatial().from_index(f, format=fmt, **kw, **({} if order else {'sort': False}))
    finally:
        if home is None: os.environ.pop('HOME', None)
        else: os.environ['HOME'] = home
    s = slice(None, None, -1) if back and not order else slice(None)
    ctx.shape(x.data, g.data.shape)
    ctx.check(np.array_equal(np.where(g.mask, 0, g.data)[:, :, s], np.where(x.mask, 0, x.data)) if fmt != 'ascii' else bool(np.all(np.abs(g.data[:, :, s] - x.data) < 5.1e-5)), 'values')
    ctx.check(np.array_equal(g.mask[:, :, s], x.mask), 'validity')
    ctx.check(np.allclose(x.lat, g.lat, atol=1e-9) and np.allclose(x.lon, g.lon, atol=1e-9), 'coordinates')
    ctx.eq(x.time, g.time[s], 'dates', tol=1e-12); ctx.check(np.array_equal(x.month, g.month[s]), 'months')

@contract('dictionaries of grids keep values, coordinates and dates', [S + 'from_dict'], symbolic=False, bounded='drawn grids', samples=20)
def dictionary(ctx):
    nt = ctx.choice('nt', [None, 3]); g = grid(ctx, *region(ctx), nt, False)
    d = dict(lon=g.lon, lat=g.lat, data=g.data, time=np.asarray(g.time), month=np.asarray(g.month), attributes={'title': 'T'})
    x = spatial().from_dict(d)
    compare(ctx, x, g, nt if nt else None, True)
    ctx.check(not np.any(x.mask) and x.attributes['ROOT'] == {'title': 'T'}, 'attributes')
    x.data[...] = 0
    ctx.check(np.any(g.data), 'independent of the dictionary')

F = 'gravity_toolkit.spatial.scaling_factors.'
@contract('scaling factors keep their errors and magnitudes as text', [F + 'from_ascii', F + 'to_ascii'], symbolic=False, bounded='drawn grids', samples=30)
def factors(ctx):
    lat, lon, d = axes(ctx); ny, nx = len(lat), len(lon)
    g = scaling_factors(fill_value=-9999.0); g.lat, g.lon = lat, lon
    g.data, g.error, g.magnitude = [ctx.arr(k, (ny, nx), draw=(0.0, 5.0)) for k in ('data', 'error', 'magnitude')]
    g.mask = ctx.arr('mask', (ny, nx), draw=(0.0, 1.0)) < 0.2
    for i in range(ny): g.mask[i, i % nx] = False
    for j in range(nx): g.mask[j % ny, j] = False
    g.update_mask()
    f = pathlib.Path(ctx.tmpdir()) / 'factors.txt'; how = ctx.choice('container', [None, 'gzip', 'zip', 'bytes'])
    g.to_ascii(f)
    q, c = packed(ctx, f, how)
    kw = dict(spacing=[d, d], nlat=ny, nlon=nx) if ctx.choice('dimensions', ['number', 'extent']) == 'number' else dict(extent=[lon[0], lon[-1], lat[-1], lat[0]], **ctx.choice('with', [dict(nlat=ny, nlon=nx), dict(spacing=[d, d])]))
    x = scaling_factors(fill_value=-9999.0).from_ascii(q, **kw, **({'compression': c} if c else {}))
    at = lookup(x)
    for i in range(ny):
        for j in range(nx):
            k = at[round(float(lat[i]), 6), round(float(lon[j]), 6)]
            ctx.check(bool(x.mask[k]) == bool(g.mask[i, j]), 'validity')
            for n in ('data', 'error', 'magnitude'):
                if not g.mask[i, j]: ctx.check(abs(getattr(x, n)[k] - getattr(g, n)[i, j]) <= 5.1e-5, n)
                else: ctx.eq(getattr(x, n)[k], -9999.0, 'fill value', tol=0)

@contract('any grid reads back from a file that keeps its variables', [S + k for k in ('from_netCDF4', 'to_netCDF4', 'from_HDF5', 'to_HDF5', 'expand_dims', 'update_mask')], samples=30, timeout=20)
def kept(ctx):
    fmt = ctx.choice('format', ['netCDF4', 'HDF5']); dims = ctx.choice('dims', ['2d', '3d', 'undated'])
    ny, nx = ctx.int('ny', 2, draw=(2, 5)), ctx.int('nx', 2, draw=(2, 5)); nt = ctx.int('nt', 2, draw=(2, 4)) if dims == '3d' else None
    g = mk_grid(ctx, 'a', ny, nx, nt, date=dims != 'undated', fill=True if ctx.choice('filled', [True, False]) else None)
    if g.fill_value is None: g.mask = np.zeros(sh(ny, nx, nt), dtype=bool)
    date = dims != 'undated'
    d, m, fv = ctx.snap(g.data), ctx.snap(g.mask), g.fill_value
    if ctx.symbolic:
        ctx.callee('gravity_toolkit.time', 'adjust_months', lambda m: m); ctx.callee('gravity_toolkit.time', 'calendar_to_grace', lambda t: t)
    f = file_callees(ctx, 'gravity_toolkit.spatial')
    if fmt == 'netCDF4': g.to_netCDF4(f, date=date); x = spatial().from_netCDF4(f, date=date)
    else: g.to_HDF5(f, date=date); x = spatial().from_HDF5(f, date=date)
    ctx.shape(x.data, d.shape); ctx.shape(x.mask, d.shape)
    ctx.forall([(0, ny)], lambda i: ctx.eq(x.lat[i], g.lat[i], 'latitudes', tol=0)); ctx.forall([(0, nx)], lambda i: ctx.eq(x.lon[i], g.lon[i], 'longitudes', tol=0))
    def one(*i):
        ctx.check(x.mask[i] == m[i], 'validity')
        ctx.eq(x.data[i], d[i], 'values', tol=0)
    ctx.forall([(0, ny), (0, nx)] + ([(0, nt)] if nt is not None else []), one)
    if fv is not None: ctx.eq(x.fill_value, fv, 'fill value', tol=0)
    else: ctx.check(x.fill_value is None, 'no fill value')
    if nt is not None: ctx.forall([(0, nt)], lambda k: ctx.eq(x.time[k], g.time[k], 'dates', tol=0))
    elif date: ctx.eq(np.squeeze(x.time), np.squeeze(g.time), 'date', tol=0)
    else: ctx.check(x.time is None and x.month is None, 'no date')
