import numpy as np
from gravity_toolkit.harmonics import harmonics
from gravity_toolkit.spatial import spatial, scaling_factors

def mk_harmonics(ctx, name, lmax, mmax, nt=None, time=True, nonzero=False):
    """a harmonics object with arbitrary coefficients; nt None: a single epoch (2-D)"""
    h = harmonics(lmax=lmax, mmax=mmax)
    sh = (lmax + 1, mmax + 1) if nt is None else (lmax + 1, mmax + 1, nt)
    h.clm = ctx.arr(name + '_clm', sh, nonzero=nonzero)
    h.slm = ctx.arr(name + '_slm', sh, nonzero=nonzero)
    if nt is None:
        if time:
            h.time = ctx.real(name + '_time', draw=(2002.0, 2020.0))
            h.month = ctx.int(name + '_month', 1, 300)
    else:
        h.time = ctx.arr(name + '_time', (nt,), draw=(2002.0, 2020.0))
        h.month = ctx.arr(name + '_month', (nt,), kind='i', draw=(1, 300))
    return h

class Snap:
    """recorded copy of the state of an object"""
    def __init__(self, ctx, h, names=('clm', 'slm', 'time', 'month')):
        self.names = names
        for n in names:
            v = getattr(h, n)
            setattr(self, n, ctx.snap(v) if v is not None else None)
    def unchanged(self, ctx, h, label):
        for n in self.names:
            v = getattr(h, n)
            w = getattr(self, n)
            if w is None:
                ctx.check(v is None, label + '.' + n)
            else:
                ctx.eq(v, w, label + '.' + n + ' unchanged', tol=0)

def spoil(r, skip=()):
    """overwrite every array of a result: the object it came from must not change with it"""
    for k in ('clm', 'slm', 'data', 'mask', 'error', 'lat', 'lon', 'time', 'month', 'C10', 'C11', 'S11', 'eC10', 'eC11', 'eS11', 'X', 'Y', 'Z', 'l', 'm'):
        x = getattr(r, k, None)
        if x is None or k in skip or not hasattr(x, 'ndim') or x.ndim == 0: continue
        x[...] = True if k == 'mask' else 77

def zeros_like_shape(ctx, h): return h.clm.shape

CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
DPM = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)

def is_leap(ctx, y):
    return ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0)

def day_number(ctx, y, m, d):
    """proleptic Gregorian day count, 0001-01-01 is day 1; y may be symbolic, m is a plain int"""
    z = y - 1
    n = 365 * z + z // 4 - z // 100 + z // 400 + CUM[m - 1] + d
    return n + (ctx.ite(is_leap(ctx, y), 1, 0) if m > 2 else 0)

def month_length(ctx, y, m):
    return DPM[m - 1] + (ctx.ite(is_leap(ctx, y), 1, 0) if m == 2 else 0)

def mk_grid(ctx, name, ny, nx, nt=None, fill=True, error=False, cls=spatial, date=True, draw=(-3.0, 3.0), drawm=(-2, 1), **kw):
    """a grid with arbitrary values and mask in a consistent state (invalid cells hold the fill value);
    nt None: a single epoch (2-D)"""
    sh = (ny, nx) if nt is None else (ny, nx, nt)
    fv = ctx.real(name + '_fill', draw=(-100.0, -90.0)) if fill is True else fill
    g = cls(fill_value=fv)
    g.lat = ctx.arr(name + '_lat', (ny,), draw=(-90.0, 90.0)); g.lon = ctx.arr(name + '_lon', (nx,), draw=(-180.0, 360.0))
    g.mask = ctx.arr(name + '_mask', sh, kind='i', draw=drawm) > 0
    g.data = ctx.arr(name + '_data', sh, draw=draw, **kw)
    if error: g.error = ctx.arr(name + '_error', sh, draw=(0.0, 1.0))
    if date:
        if nt is None:
            g.time = ctx.real(name + '_time', draw=(2002.0, 2020.0)); g.month = ctx.int(name + '_month', 1, 300)
        else:
            g.time = ctx.arr(name + '_time', (nt,), draw=(2002.0, 2020.0)); g.month = ctx.arr(name + '_month', (nt,), kind='i', draw=(1, 300))
    if fv is not None: g.update_mask()
    return g

class GSnap:
    """recorded copy of a grid"""
    F = ('data', 'mask', 'lat', 'lon', 'time', 'month', 'error')
    def __init__(self, ctx, g):
        for k in self.F:
            v = getattr(g, k, None)
            setattr(self, k, ctx.snap(v) if v is not None else None)
        self.fill_value = g.fill_value
    def unchanged(self, ctx, g, label, only=F):
        for k in only:
            v, w = getattr(g, k, None), getattr(self, k)
            if w is None: ctx.check(v is None, label + '.' + k)
            else: ctx.shape(v, w.shape if hasattr(w, 'shape') else (), label + '.' + k); ctx.eq(v, w, label + '.' + k + ' unchanged', tol=0)
        ctx.check(g.fill_value is self.fill_value or bool(g.fill_value == self.fill_value), label + '.fill_value')

def grid_setup(ctx, dims=('2d', '3d'), nt=(1, 4), **kw):
    d = ctx.choice('dims', list(dims))
    ny = ctx.int('ny', 1, draw=(1, 5)); nx = ctx.int('nx', 1, draw=(1, 5))
    n = ctx.int('nt', 1, draw=nt) if d == '3d' else None
    return ny, nx, n, mk_grid(ctx, 'a', ny, nx, n, **kw)

def R(*n): return [(0, i) for i in n if i is not None]
def sh(ny, nx, nt): return (ny, nx) if nt is None else (ny, nx, nt)


def legendre_callee(ctx):
    """plm_holmes by its contract: the functions depend on degree, order and argument, and are zero for orders above the
    degree; returns F(LMAX, argument of j, n) -> P(l, m, j)"""
    if ctx.symbolic:
        def contracted(LMAX, x, MMAX=None, astype=None):
            x = np.atleast_1d(x); n = len(x); M = LMAX if MMAX is None else MMAX
            v = lambda k: lambda l, m, j: ctx.ite(m <= l, ctx.uf(k, l, m, x[j]), 0)
            return ctx.table((LMAX + 1, M + 1, n), v('P')), ctx.table((LMAX + 1, M + 1, n), v('dP'))
        ctx.callee('gravity_toolkit.associated_legendre', 'plm_holmes', contracted)
        return lambda L, x, n: lambda l, m, j: ctx.ite(m <= l, ctx.uf('P', l, m, x(j)), 0)
    from gravity_toolkit.associated_legendre import plm_holmes
    def F(L, x, n):
        T = plm_holmes(L, np.array([float(x(j)) for j in range(n)]))[0]
        return lambda l, m, j: T[l, m, j]
    return F

def gauss_callee(ctx, mod='gravity_toolkit.gauss_weights'):
    """smoothing weights by their contract: they depend on the radius and the degree; returns W(radius, LMAX) -> w(l)"""
    if ctx.symbolic:
        ctx.callee(mod, 'gauss_weights', lambda hw, LMAX, CUTOFF=None: ctx.table((LMAX + 1,), lambda l: ctx.uf('w', hw, l)))
        return lambda hw, L: lambda l: ctx.uf('w', hw, l)
    from gravity_toolkit.gauss_weights import gauss_weights
    def W(hw, L):
        w = gauss_weights(hw, L)
        return lambda l: w[l]
    return W

# ---- files by their contract (symbolic only): what is written to a variable or attribute of a file is what is read from it
class _Var:
    def __init__(self, value=None, dims=None): self.value = value; self.attrs = {}; self.dims_ = dims; self.dims = _Scales()
    def __setitem__(self, k, v): self.value = np.array(v)
    def __getitem__(self, k): return np.array(self.value)
    def setncattr(self, k, v): self.attrs[k] = v
    def getncattr(self, k):
        if k not in self.attrs: raise AttributeError(k)
        return self.attrs[k]
    def __getattr__(self, k):
        if k.startswith('_') or k not in self.__dict__.get('attrs', {}): raise AttributeError(k)
        return self.attrs[k]
class _Scale:
    label = ''
    def attach_scale(self, v): pass
class _Scales:
    def __getitem__(self, i): return _Scale()
class _File:
    def __init__(self, name): self.name = name; self.variables = {}; self.dims = {}; self.attrs = {}; self.filename = str(name)
    def filepath(self): return str(self.name)
    def set_auto_mask(self, flag): pass
    def createDimension(self, k, n): self.dims[k] = n
    def createVariable(self, k, dtype, dims=(), fill_value=None, zlib=False):
        v = self.variables[k] = _Var(dims=dims)
        if fill_value is not None: v.attrs['_FillValue'] = fill_value
        return v
    def setncattr(self, k, v): self.attrs[k] = v
    def getncattr(self, k): return self.attrs[k]
    def ncattrs(self): return list(self.attrs)
    def create_dataset(self, k, shape, data=None, dtype=None, compression=None):
        v = self.variables[k] = _Var(np.array(data))
        return v
    def keys(self): return self.variables.keys()
    def __getitem__(self, k): return self.variables[k]
    def close(self): pass
class _Path:
    def __init__(self, name): self.name = str(name)
    def expanduser(self): return self
    def absolute(self): return self
    def exists(self): return True
    def __str__(self): return self.name
def file_callees(ctx, mod):
    """netCDF4 and h5py by their contract in a module (symbolic); a name of a file otherwise"""
    if not ctx.symbolic:
        import os
        return os.path.join(ctx.tmpdir(), 'file')
    store = {}
    def opened(name, mode='r', format=None):
        if mode == 'r': return store[str(name)]
        f = store[str(name)] = _File(name)
        return f
    class nc: Dataset = staticmethod(opened)
    class h5: File = staticmethod(opened)
    class pl: Path = _Path
    ctx.callee(mod, 'netCDF4', nc); ctx.callee(mod, 'h5py', h5); ctx.callee(mod, 'pathlib', pl)
    return 'file'
