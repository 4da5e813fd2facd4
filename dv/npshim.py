"""numpy / math / builtins as seen by the transformed code.

Functions called on purely concrete arguments fall through to the real numpy;
symbolic arguments use the definitions below (numpy's documented semantics over
exact reals).  Anything else raises Unsupported."""
import numpy as np, math, builtins as B, types, numbers
from fractions import Fraction
from . import terms as t, prove as P, sym
from .terms import ZERO, ONE, K, TRUE, FALSE
from .sym import *
from .sym import N_, W, S, C2, SArr, SymSeq, SymRange, R, Unsupported, as_arr, new, binop, mapu, isnum, kind, ite_v, tonum, dims, bshape, bget, view, cast_n, promote

def sarr(x): return isinstance(x, (SArr, S, C2, SymSeq, SymMA))
def symbolic(x):
    if sarr(x): return True
    if isinstance(x, (list, tuple)): return any(symbolic(y) for y in x)
    if isinstance(x, dict): return any(symbolic(y) for y in x.values())
    if isinstance(x, slice): return symbolic((x.start, x.stop, x.step))
    return False

def to_concrete(x):
    """real numpy value of a symbolic value without variables, or None"""
    if isinstance(x, S):
        if x.n.k == 'K':
            return (int(x.n.a) if x.n.s == 'I' else (x.n.a if x.n.s == 'B' else float(x.n.a)))
        return None
    if isinstance(x, SArr):
        if not all(d.k == 'K' for d in x.shape_): return None
        sh = tuple(int(d.a) for d in x.shape_)
        if np.prod(sh) > 5000: return None
        out = np.empty(sh, dtype=x.dtype)
        for i in np.ndindex(*sh):
            v = x.at(tuple(K(j) for j in i))
            if isinstance(v, C2):
                if v.re.k != 'K' or v.im.k != 'K': return None
                out[i] = complex(v.re.a, v.im.a)
            else:
                if v.k != 'K': return None
                out[i] = v.a if v.s == 'B' else (int(v.a) if x.kind == 'i' else float(v.a))
        return out
    if isinstance(x, (list, tuple)):
        r = [to_concrete(y) if symbolic(y) else y for y in x]
        if any(y is None and symbolic(z) for y, z in zip(r, x)): return None
        return type(x)(r)
    return x

def _k(dt, default='f'):
    return default if dt is None else kind(dt)
def _sh(s):
    if isinstance(s, (SArr, np.ndarray)): s = tuple(s)
    if isinstance(s, (tuple, list)): return tuple(_dim(x) for x in s)
    return (_dim(s),)
def _dim(x):
    n = N_(x)
    if n.s == 'R':
        raise TypeError("'float' object cannot be interpreted as an integer")
    if n.k != 'K' and not R.holds(t.le(ZERO, n)):
        if R.holds(t.lt(n, ZERO)): raise ValueError('negative dimensions are not allowed')
        R.oblige(t.le(ZERO, n), 'array dimension is not negative', 'safety')
    return n

def rng_pred(n): return lambda i: t.and_(t.le(ZERO, i), t.lt(i, n))

def liftr(r):
    if sym.tokens(r): return sym.lift(r)
    if isinstance(r, np.ndarray) and r.dtype.kind in 'fiub' and r.ndim and r.size <= 100000: return sym.lift(r)
    return r

class NP(types.ModuleType):
    def __getattr__(self, a):
        real = getattr(np, a)
        if isinstance(real, type) or not callable(real): return real
        def f(*args, **kw):
            if not symbolic(args) and not symbolic(tuple(kw.values())): return liftr(real(*args, **kw))
            ca = [to_concrete(x) if symbolic(x) else x for x in args]
            ck = {k: to_concrete(x) if symbolic(x) else x for k, x in kw.items()}
            if any(y is None and symbolic(x) for x, y in zip(args, ca)) or any(ck[k] is None and symbolic(kw[k]) for k in kw):
                raise Unsupported('numpy.%s on symbolic values' % a)
            return liftr(real(*ca, **ck))
        return f
    # ---- constants
    pi = S(t.PI); newaxis = None; inf = math.inf; nan = math.nan
    # ---- constructors
    def zeros(self, shape, dtype=None, order=None):
        if dtype is not None and kind(dtype) not in 'fibc': return np.zeros(shape, dtype=dtype)
        return const(_sh(shape), 0, _k(dtype))
    def ones(self, shape, dtype=None): return const(_sh(shape), 1, _k(dtype))
    def empty(self, shape, dtype=None):
        if dtype is not None and kind(dtype) not in 'fibc': return np.empty(shape, dtype=dtype)
        nm = t.freshname('empty'); kd = _k(dtype)
        return new(_sh(shape), kd, (lambda idx: C2(t.app(nm + 'r', idx, 'R'), t.app(nm + 'i', idx, 'R'))) if kd == 'c' else lambda idx: t.app(nm, idx, {'f': 'R', 'i': 'I', 'b': 'B'}[kd]))
    def full(self, shape, v, dtype=None):
        n = N_(v); kd = sym.kindof(n) if dtype is None else kind(dtype)
        return const(_sh(shape), v, kd)
    def zeros_like(self, a, dtype=None, **k): a = as_arr(a); return const(a.shape_, 0, a.kind if dtype is None else kind(dtype))
    def ones_like(self, a, dtype=None, **k): a = as_arr(a); return const(a.shape_, 1, a.kind if dtype is None else kind(dtype))
    def empty_like(self, a, dtype=None): a = as_arr(a); return self.empty(tuple(W(d) for d in a.shape_), dtype or a.dtype)
    def full_like(self, a, v, dtype=None): a = as_arr(a); return const(a.shape_, v, a.kind if dtype is None else kind(dtype))
    def array(self, x, dtype=None, copy=True, ndmin=0, order=None):
        if isinstance(x, SymMA): raise Unsupported('masked')
        if not symbolic(x):
            if isinstance(x, (str,)): return np.array(x)
            try: r = np.array(x, dtype=_dt(dtype), ndmin=ndmin)
            except Exception: raise
            if r.dtype.kind in 'fiubc' : return sym.lift(r)
            return r
        a = as_arr(x)
        r = a.copy() if dtype is None else a.astype(dtype)
        while r.ndim < ndmin: r = r[None]
        return r
    def asarray(self, x, dtype=None):
        if isinstance(x, SArr) and (dtype is None or kind(dtype) == x.kind): return x
        return self.array(x, dtype=dtype)
    ascontiguousarray = asarray
    def copy(self, x): return self.array(x)
    def arange(self, a, b=None, step=1, dtype=None):
        if b is None: a, b = 0, a
        lo, hi, st = N_(a), N_(b), N_(step)
        if st.k != 'K': raise_st = not (R.holds(t.lt(ZERO, st)) or R.holds(t.lt(st, ZERO)))
        else: raise_st = st is ZERO
        if raise_st: raise Unsupported('arange step')
        q = t.div(t.sub(hi, lo), st)
        n = t.neg(t.floor(t.neg(q)))
        if st is t.ONE and n.s == 'I': n = t.sub(hi, lo) if t.sub(hi, lo).s == 'I' else n
        if not R.holds(t.le(ZERO, n)): n = R.smax(n, ZERO)
        kd = 'i' if all(x.s == 'I' for x in (lo, hi, st)) else 'f'
        if dtype is not None: kd = kind(dtype)
        return new((n,), kd, lambda idx: cast_n(t.add(lo, t.mul(st, idx[0])), kd))
    def linspace(self, a, b, n=50, **kw):
        lo, hi, nn = N_(a), N_(b), N_(n)
        if kw: raise Unsupported('linspace')
        st = t.div(t.sub(hi, lo), t.sub(nn, ONE))
        return new((nn,), 'f', lambda idx: t.add(lo, t.mul(st, idx[0])))
    def identity(self, n, dtype=None): return self.eye(n)
    def eye(self, n, dtype=None):
        d = N_(n)
        return new((d, d), 'f', lambda idx: t.ite(t.eq(idx[0], idx[1]), ONE, ZERO))
    # ---- shape
    def shape(self, x): return as_arr(x).shape if not isinstance(x, SymMA) else x.shape
    def ndim(self, x): return as_arr(x).ndim if not isinstance(x, SymMA) else x.ndim
    def size(self, x): return as_arr(x).size
    def squeeze(self, x, axis=None):
        x = as_arr(x)
        if axis is None: ax = [d for d in range(x.ndim) if R.truth(t.eq(x.shape_[d], ONE))]
        else:
            ax = axes_of(x, axis)
            for a in ax:
                if not R.truth(t.eq(x.shape_[a], ONE)): raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        return x[tuple(0 if d in ax else slice(None) for d in range(x.ndim))] if ax else x
    def atleast_1d(self, *xs):
        # (a missing value is an object, as in NumPy)
        r = [np.atleast_1d(None) if x is None else as_arr(x) if as_arr(x).ndim else as_arr(x)[None] for x in xs]
        return r[0] if len(r) == 1 else r
    def atleast_2d(self, x):
        x = as_arr(x)
        if x.ndim == 0: return x[None, None]
        return x[None, :] if x.ndim == 1 else x
    def atleast_3d(self, x):
        x = as_arr(x)
        if x.ndim == 0: return x[None, None, None]
        if x.ndim == 1: return x[None, :, None]
        return x[:, :, None] if x.ndim == 2 else x
    def expand_dims(self, x, axis):
        x = as_arr(x); axis %= x.ndim + 1
        return x[tuple([slice(None)] * axis + [None])]
    def transpose(self, x, axes=None):
        x = as_arr(x)
        return x.transpose(*axes) if axes is not None else x.transpose()
    def swapaxes(self, x, a, b):
        x = as_arr(x); p = list(range(x.ndim)); p[a], p[b] = p[b], p[a]
        return x.transpose(*p)
    def ravel(self, x):
        x = as_arr(x)
        if x.ndim == 1: return x
        if x.ndim == 0: return x[None]
        n = t.mul(*x.shape_)
        f = x.frozen(); sh = x.shape_
        def fn(idx):
            i = idx[0]; out = []
            for d in range(len(sh) - 1, 0, -1):
                q = t.idiv(i, sh[d]); out.append(t.sub(i, t.mul(q, sh[d]))); i = q
            return f(tuple([i] + out[::-1]))
        one = [d for d in range(x.ndim) if sh[d] is not ONE]
        if len(one) == 1:
            d0 = one[0]
            return new((sh[d0],), x.kind, lambda idx: f(tuple(idx[0] if d == d0 else ZERO for d in range(len(sh)))))
        return new((n,), x.kind, fn)
    def reshape(self, x, shape, order='C'):
        x = as_arr(x)
        if not isinstance(shape, (tuple, list)): shape = (shape,)
        sh = [N_(s) for s in shape]
        tot = t.mul(*x.shape_) if x.shape_ else ONE
        neg = [i for i, s in enumerate(sh) if s.k == 'K' and s.a == -1]
        if neg:
            rest = t.mul(*([s for i, s in enumerate(sh) if i not in neg] or [ONE]))
            sh[neg[0]] = t.div(tot, rest)
            if sh[neg[0]].s != 'I': sh[neg[0]] = t.floor(sh[neg[0]])
        if not R.truth(t.eq(t.mul(*sh) if sh else ONE, tot)): raise ValueError('cannot reshape array')
        sq = lambda s: [d for d in s if d is not ONE]
        a, b = sq(x.shape_), sq(sh)
        f = x.frozen()
        if len(a) == len(b) and all(p is q or R.holds(t.eq(p, q)) for p, q in zip(a, b)):
            pos = [d for d, s in enumerate(x.shape_) if s is not ONE]; pos2 = [d for d, s in enumerate(sh) if s is not ONE]
            def fn(idx):
                out = [ZERO] * x.ndim
                for p, q in zip(pos, pos2): out[p] = idx[q]
                return f(tuple(out))
            def mp(idx):
                out = [ZERO] * x.ndim
                for p, q in zip(pos, pos2): out[p] = idx[q]
                return tuple(out)
            def inv(v):
                out = [ZERO] * len(sh)
                for p, q in zip(pos, pos2): out[q] = v[p]
                return TRUE, tuple(out)
            return view(x, tuple(sh), mp, inv)
        flat = self.ravel(x); g = flat.frozen()
        def fn2(idx):
            i = ZERO
            for j, s in zip(idx, sh): i = t.add(t.mul(i, s), j)
            return g((i,))
        return new(tuple(sh), x.kind, fn2)
    def broadcast_to(self, x, shape):
        x = as_arr(x); sh = _sh(shape)
        sh = bshape((x.shape_, sh)); g = bget(x, sh)
        return new(sh, x.kind, g)
    def concatenate(self, xs, axis=0):
        xs = [as_arr(x) for x in xs]
        if axis is None: xs = [self.ravel(x) for x in xs]; axis = 0
        nd = xs[0].ndim; axis %= nd
        for x in xs[1:]:
            if x.ndim != nd: raise ValueError('all the input array dimensions must match')
            for d in range(nd):
                if d != axis and not R.truth(t.eq(x.shape_[d], xs[0].shape_[d])): raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
        kd = promote({x.kind for x in xs})
        offs = [ZERO]
        for x in xs: offs.append(t.add(offs[-1], x.shape_[axis]))
        fs = [x.frozen() for x in xs]
        def fn(idx):
            r = None
            for j in range(len(xs) - 1, -1, -1):
                i2 = idx[:axis] + (t.sub(idx[axis], offs[j]),) + idx[axis + 1:]
                v = cast_n(fs[j](i2), kd)
                r = v if r is None else ite_v(t.lt(idx[axis], offs[j + 1]), v, r)
            return r
        sh = list(xs[0].shape_); sh[axis] = offs[-1]
        return new(tuple(sh), kd, fn)
    def append(self, a, b, axis=None): return self.concatenate((np_at1(a), np_at1(b)), axis=0 if axis is None else axis)
    def hstack(self, xs): return self.concatenate([self.atleast_1d(x) for x in xs], axis=0 if as_arr(xs[0]).ndim <= 1 else 1)
    def vstack(self, xs): return self.concatenate([self.atleast_2d(x) for x in xs], axis=0)
    def stack(self, xs, axis=0):
        return self.concatenate([self.expand_dims(x, axis) for x in xs], axis=axis)
    def column_stack(self, xs): return self.stack(xs, axis=1)
    def repeat(self, x, n, axis=None):
        x = as_arr(x)
        if x.ndim == 0: return const((N_(n),), W(x.at(())), x.kind)
        if axis is None: x = x.ravel(); axis = 0
        if not isnum(n): raise Unsupported('repeat by an array')
        ax = int(axis) % x.ndim; n = N_(n); f = x.frozen(); one = x.shape_[ax] is ONE
        def fn(idx):
            i = idx[ax]
            return f(tuple(idx[:ax]) + (ZERO if one else i if n is ONE else t.idiv(i, n),) + tuple(idx[ax + 1:]))
        return new(tuple(t.mul(d, n) if k == ax else d for k, d in enumerate(x.shape_)), x.kind, fn)
    def tile(self, x, reps):
        x = as_arr(x); reps = _sh(reps)
        while x.ndim < len(reps): x = x[None]
        reps = (ONE,) * (x.ndim - len(reps)) + reps
        f = x.frozen()
        def fn(idx):
            return f(tuple(i if r is ONE else (ZERO if s is ONE else t.sub(i, t.mul(s, t.idiv(i, s)))) for i, s, r in zip(idx, x.shape_, reps)))
        return new(tuple(t.mul(a, b) for a, b in zip(x.shape_, reps)), x.kind, fn)
    def meshgrid(self, x, y, indexing='xy'):
        x, y = as_arr(x), as_arr(y); fx, fy = x.frozen(), y.frozen()
        if indexing == 'xy':
            sh = (y.shape_[0], x.shape_[0])
            return [new(sh, x.kind, lambda i: fx((i[1],))), new(sh, y.kind, lambda i: fy((i[0],)))]
        sh = (x.shape_[0], y.shape_[0])
        return [new(sh, x.kind, lambda i: fx((i[0],))), new(sh, y.kind, lambda i: fy((i[1],)))]
    def flip(self, x, axis=None):
        x = as_arr(x)
        ax = range(x.ndim) if axis is None else axes_of(x, axis)
        return x[tuple(slice(None, None, -1) if d in ax else slice(None) for d in range(x.ndim))]
    def flipud(self, x): return self.flip(x, 0)
    def fliplr(self, x): return self.flip(x, 1)
    def roll(self, x, shift, axis=None):
        x = as_arr(x)
        if axis is None or not isnum(shift) or int(shift) != shift: raise Unsupported('roll')
        ax = int(axis) % x.ndim; n = x.shape_[ax]; k = int(shift); f = x.frozen()
        if n is ONE or k == 0: return new(x.shape_, x.kind, f)
        if not R.holds(t.le(N_(abs(k)), n)): raise Unsupported('roll further than the axis')
        def fn(idx):
            i = t.sub(idx[ax], N_(k))
            j = t.ite(t.lt(i, ZERO), t.add(i, n), i) if k > 0 else t.ite(t.lt(i, n), i, t.sub(i, n))
            return f(tuple(idx[:ax]) + (j,) + tuple(idx[ax + 1:]))
        return new(x.shape_, x.kind, fn)
    def diag(self, x):
        x = as_arr(x); f = x.frozen()
        if x.ndim == 1:
            r = new((x.shape_[0],) * 2, x.kind, lambda i: t.ite(t.eq(i[0], i[1]), f((i[0],)), ZERO))
            DIAG[r.buf] = (r.buf.fn, r, new(x.shape_, x.kind, f))
            return r
        return new((R.smin(*x.shape_),), x.kind, lambda i: f((i[0], i[0])))
    def diff(self, x, n=1, axis=-1):
        x = as_arr(x); axis %= x.ndim
        a = x[tuple([slice(None)] * axis + [slice(1, None)])]; b = x[tuple([slice(None)] * axis + [slice(None, -1)])]
        return a - b
    # ---- elementwise
    def abs(self, x): return abs(x) if not isinstance(x, (list, tuple)) else abs(as_arr(x))
    absolute = abs
    fabs = abs
    def sqrt(self, x): return un(x, t.sqrt, 'f')
    def exp(self, x): return un(x, exp_, 'f', cexp)
    def log(self, x): return un(x, lambda v: t.app('log', (v,), 'R') if not (v is ONE) else ZERO, 'f')
    def log10(self, x): return un(x, lambda v: t.app('log10', (v,), 'R'), 'f')
    def log2(self, x): return un(x, lambda v: t.app('log2', (v,), 'R'), 'f')
    def sin(self, x): return un(x, t.sin, 'f')
    def cos(self, x): return un(x, t.cos, 'f')
    def tan(self, x): return un(x, lambda v: t.div(t.sin(v), t.cos(v)), 'f')
    def sinh(self, x): return un(x, lambda v: t.app('sinh', (v,), 'R'), 'f')
    def arcsin(self, x): return un(x, lambda v: t.app('arcsin', (v,), 'R'), 'f')
    def arccos(self, x): return un(x, lambda v: t.app('arccos', (v,), 'R'), 'f')
    def arctan(self, x): return un(x, lambda v: t.app('arctan', (v,), 'R'), 'f')
    def arctan2(self, y, x): return bi(y, x, lambda a, b: t.app('arctan2', (a, b), 'R'), 'f')
    def radians(self, x): return un(x, lambda v: t.div(t.mul(v, t.PI), K(180)), 'f')
    deg2rad = radians
    def degrees(self, x): return un(x, lambda v: t.div(t.mul(v, K(180)), t.PI), 'f')
    rad2deg = degrees
    def floor(self, x): return un(x, sym.rfloor, 'f')
    def ceil(self, x): return un(x, lambda v: t.neg(t.floor(t.neg(v))), 'f')
    def trunc(self, x): return un(x, sym.trunc, 'f')
    fix = trunc
    def round(self, x, decimals=0):
        if decimals: raise Unsupported('round decimals')
        return un(x, rint_, 'f')
    rint = round
    around = round
    def sign(self, x): return un(x, lambda v: t.ite(t.lt(ZERO, v), ONE, t.ite(t.lt(v, ZERO), t.MONE, ZERO)), None)
    def power(self, a, b): return pow_(as_np(a), b)
    def square(self, a): return as_np(a) * a
    def mod(self, a, b):
        if not symbolic((a, b)): return np.remainder(a, b)
        return binop(OPS['%'], a, b)
    remainder = mod
    def fmod(self, a, b): raise Unsupported('fmod')
    def add(self, a, b): return binop(OPS['+'], a, b)
    def subtract(self, a, b): return binop(OPS['-'], a, b)
    def multiply(self, a, b): return binop(OPS['*'], a, b)
    def divide(self, a, b): return binop(OPS['/'], a, b)
    true_divide = divide
    def floor_divide(self, a, b): return binop(OPS['//'], a, b)
    def negative(self, a): return -as_np(a)
    def maximum(self, a, b): return bi(a, b, lambda x, y: t.maxn(x, y), None)
    def minimum(self, a, b): return bi(a, b, lambda x, y: t.minn(x, y), None)
    def clip(self, x, lo, hi): return self.minimum(self.maximum(x, lo), hi)
    def hypot(self, a, b): return self.sqrt(as_np(a) * a + as_np(b) * b)
    def real(self, x): x = as_np(x); return x.real
    def imag(self, x): x = as_np(x); return x.imag
    def conj(self, x): return as_np(x).conj()
    conjugate = conj
    def angle(self, x): x = as_np(x); return self.arctan2(x.imag, x.real)
    def where(self, c, *ab):
        if not ab: return self.nonzero(c)
        a, b = ab
        C, A, B_ = as_arr(c), as_arr(a), as_arr(b)
        sh = bshape((C.shape_, A.shape_, B_.shape_)); gc, ga, gb = bget(C, sh), bget(A, sh), bget(B_, sh)
        kd = promote({A.kind, B_.kind})
        cb = lambda v: v if v.s == 'B' else t.ne(v, ZERO)
        r = new(sh, kd, lambda i: ite_v(cb(gc(i)), cast_n(ga(i), kd), cast_n(gb(i), kd)))
        return r
    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        rt, at = N_(rtol), N_(atol)
        return bi(a, b, lambda x, y: t.le(t.absn(t.sub(x, y)), t.add(at, t.mul(rt, t.absn(y)))), 'b')
    def allclose(self, a, b, **k): return self.all(self.isclose(a, b, **k))
    def isnan(self, x): return un(x, lambda v: TRUE if v.k == 'F' and v.a[0] == 'nan' else (t.ite(v.a[0], K(v.a[1].k == 'F' and v.a[1].a[0] == 'nan'), K(v.a[2].k == 'F' and v.a[2].a[0] == 'nan')) if v.k == 'I' else FALSE), 'b')
    def isfinite(self, x): return un(x, lambda v: K(not ({'nan', 'inf'} & t.syms(v))), 'b')
    def isinf(self, x): return un(x, lambda v: FALSE, 'b')
    def nan_to_num(self, x, **k): return x
    def logical_not(self, x): return un(x, lambda v: t.not_(v if v.s == 'B' else t.ne(v, ZERO)), 'b')
    def logical_and(self, a, b): return bi(a, b, lambda x, y: t.and_(tob(x), tob(y)), 'b')
    def logical_or(self, a, b): return bi(a, b, lambda x, y: t.or_(tob(x), tob(y)), 'b')
    def equal(self, a, b): return binop(OPS['=='], a, b)
    def not_equal(self, a, b): return binop(OPS['!='], a, b)
    def less(self, a, b): return binop(OPS['<'], a, b)
    def greater(self, a, b): return binop(OPS['>'], a, b)
    # ---- reductions
    def sum(self, x, axis=None, dtype=None, keepdims=False):
        x = as_arr(x)
        if dtype is not None: x = x.astype(dtype)
        if x.kind == 'b': x = x.astype(int)
        return reduce_(x, axis, sum_, x.kind, keepdims)
    def nansum(self, x, axis=None): return self.sum(x, axis=axis)
    def mean(self, x, axis=None, keepdims=False, **k):
        x = as_arr(x)
        s = self.sum(x, axis=axis, keepdims=keepdims)
        n = ONE
        ax = range(x.ndim) if axis is None else axes_of(x, axis)
        for a in ax: n = t.mul(n, x.shape_[a])
        return s / S(n)
    nanmean = mean
    def average(self, x, axis=None, weights=None):
        if weights is None: return self.mean(x, axis=axis)
        x, w = as_arr(x), as_arr(weights)
        return self.sum(x * w, axis=axis) / self.sum(w, axis=axis if w.ndim > 1 else None)
    def prod(self, x, axis=None): 
        x = as_arr(x)
        if all(d.k == 'K' for d in x.shape_) and axis is None:
            r = 1
            for i in np.ndindex(*[int(d.a) for d in x.shape_]): r = W(x.at(tuple(K(j) for j in i))) * r
            return r
        raise Unsupported('prod')
    def max(self, x, axis=None, **k): return extreme(as_arr(x), axis, 'max')
    def min(self, x, axis=None, **k): return extreme(as_arr(x), axis, 'min')
    amax = max; amin = min; nanmax = max; nanmin = min
    def any(self, x, axis=None, **k): return quant(as_arr(x), axis, False)
    def all(self, x, axis=None, **k): return quant(as_arr(x), axis, True)
    def count_nonzero(self, x, axis=None):
        x = as_arr(x)
        if axis is None:
            m = x if x.kind == 'b' else x != 0
            if all(d.k == 'K' for d in m.shape_): return self.sum(m)
            mk, ex = sym.mask_of(m)
            n = t.app('count#%d' % mk.id, ex, 'I')
            if not ex:
                a = tob(N_(quant(m, None, False))); c = t.le(ONE, n)
                R.fact(t.implies(a, c)); R.fact(t.implies(c, a))
            return W(n)
        return self.sum((x != 0).astype(int) if x.kind != 'b' else x, axis=axis)
    def cumsum(self, x, axis=None):
        x = as_arr(x)
        if x.ndim != 1: raise Unsupported('cumsum')
        f = x.frozen()
        return new(x.shape_, 'i' if x.kind in 'ib' else 'f', lambda i: sum_(f_w := t.fresh('j', 'I'), ZERO, t.add(i[0], ONE), tonum(f((f_w,)))))
    def nonzero(self, x): return sym.nonzero(as_arr(x))
    def argmin(self, x, axis=None): return argext(as_arr(x), axis, 'argmin') if symbolic(x) else np.argmin(x, axis=axis)
    def argmax(self, x, axis=None): return argext(as_arr(x), axis, 'argmax') if symbolic(x) else np.argmax(x, axis=axis)
    def flatnonzero(self, x): return sym.nonzero(self.ravel(x))[0]
    def argwhere(self, x): raise Unsupported('argwhere')
    def std(self, *a, **k): raise Unsupported('std')
    def var(self, x, axis=None, ddof=0):
        x = as_arr(x); m = self.mean(x, axis=axis, keepdims=True)
        d = x - m
        n = t.mul(*[x.shape_[a] for a in (range(x.ndim) if axis is None else axes_of(x, axis))])
        return self.sum(d * d, axis=axis) / S(t.sub(n, K(ddof)))
    def dot(self, a, b):
        A, B_ = as_arr(a), as_arr(b)
        if A.ndim == 0 or B_.ndim == 0: return binop(OPS['*'], A, B_)
        n = A.shape_[-1]; m = B_.shape_[0 if B_.ndim == 1 else B_.ndim - 2]
        if not R.truth(t.eq(n, m)): raise ValueError('shapes %s and %s not aligned' % (A.shape_, B_.shape_))
        # products with diagonal matrices
        v = diagonal(A)
        if v is not None: return v * B_ if B_.ndim == 1 else v[:, None] * B_
        v = diagonal(B_)
        if v is not None: return A * v
        fa, fb = A.frozen(), B_.frozen(); na = A.ndim - 1; kd = promote({A.kind, B_.kind})
        bax = 0 if B_.ndim == 1 else B_.ndim - 2
        sh = A.shape_[:-1] + tuple(d for i, d in enumerate(B_.shape_) if i != bax)
        def fn(idx):
            j = t.fresh('j', 'I')
            ib = list(idx[na:]); ib.insert(bax, j)
            x, y = fa(idx[:na] + (j,)), fb(tuple(ib))
            if isinstance(x, C2) or isinstance(y, C2):
                x = x if isinstance(x, C2) else C2(x, ZERO); y = y if isinstance(y, C2) else C2(y, ZERO)
                p = sym.cmul(x, y)
                return C2(sum_(j, ZERO, n, p.re), sum_(j, ZERO, n, p.im))
            return sum_(j, ZERO, n, t.mul(tonum(x), tonum(y)))
        if not sh: return W(fn(()))
        return new(sh, kd, fn)
    matmul = dot
    inner = dot
    def outer(self, a, b): return self.ravel(a)[:, None] * self.ravel(b)[None, :]
    def kron(self, a, b):
        a, b = as_arr(a), as_arr(b)
        if a.ndim != b.ndim: raise Unsupported('kron')
        fa, fb = a.frozen(), b.frozen(); kd = promote({a.kind, b.kind})
        def fn(idx):
            ia = []; ib = []
            for i, n, m in zip(idx, a.shape_, b.shape_):
                if m is ONE: ia.append(i); ib.append(ZERO)
                elif n is ONE: ia.append(ZERO); ib.append(i)
                else:
                    q = t.idiv(i, m); ia.append(q); ib.append(t.sub(i, t.mul(q, m)))
            return t.mul(tonum(fa(tuple(ia))), tonum(fb(tuple(ib))))
        return new(tuple(t.mul(x, y) for x, y in zip(a.shape_, b.shape_)), kd, fn)
    def einsum(self, sub, *ops, **k):
        ins, out = sub.replace(' ', '').split('->')
        ins = ins.split(','); arrs = [as_arr(o) for o in ops]
        sz = {}
        for s, a in zip(ins, arrs):
            if len(s) != a.ndim: raise ValueError('einsum')
            for c, d in zip(s, a.shape_):
                if c in sz and not R.truth(t.eq(sz[c], d)): raise ValueError('einsum dims')
                sz.setdefault(c, d)
        fs = [a.frozen() for a in arrs]
        summed = [c for c in sz if c not in out]
        def fn(idx):
            m = dict(zip(out, idx))
            for c in summed: m[c] = t.fresh('j', 'I')
            v = t.mul(*[tonum(f(tuple(m[c] for c in s))) for f, s in zip(fs, ins)])
            for c in summed: v = sum_(m[c], ZERO, sz[c], v)
            return v
        if any(a.kind == 'c' for a in arrs): raise Unsupported('complex einsum')
        if not out: return W(fn(()))
        return new(tuple(sz[c] for c in out), 'f', fn)
    def trace(self, x): return self.sum(self.diag(x))
    def tril_indices(self, n, k=0, m=None):
        nn = N_(n); mm = nn if m is None else N_(m); kk = N_(k)
        if symbolic((n, k, m)):
            return sym.nonzero(new((nn, mm), 'b', lambda i: t.le(i[1], t.add(i[0], kk))))
        return tuple(sym.lift(x) for x in np.tril_indices(n, k, m))
    def triu_indices(self, n, k=0, m=None):
        nn = N_(n); mm = nn if m is None else N_(m); kk = N_(k)
        if symbolic((n, k, m)):
            return sym.nonzero(new((nn, mm), 'b', lambda i: t.le(t.add(i[0], kk), i[1])))
        return tuple(sym.lift(x) for x in np.triu_indices(n, k, m))
    def tril(self, x, k=0):
        x = as_arr(x); f = x.frozen(); kk = N_(k)
        return new(x.shape_, x.kind, lambda i: ite_v(t.le(i[-1], t.add(i[-2], kk)), f(i), ZERO))
    # ---- types
    def isscalar(self, x): return isinstance(x, (S, C2)) or np.isscalar(x)
    def iscomplexobj(self, x): return as_arr(x).kind == 'c'
    def isin(self, a, b):
        b = as_arr(b)
        n = R.concrete(b.shape_[0]) if b.ndim == 1 else None
        if n is None: raise Unsupported('isin')
        vals = [tonum(b.at((K(i),))) for i in range(n)]
        return un(a, lambda v: t.or_(*[t.eq(v, x) for x in vals]), 'b')
    in1d = isin
    def errstate(self, **k):
        import contextlib
        return contextlib.nullcontext()
    def seterr(self, **k): return {}
    def interp(self, x, xp, fp, **k): raise Unsupported('interp')

def tob(v): return v if v.s == 'B' else t.ne(v, ZERO)
def np_at1(x): return NPI.atleast_1d(x)
def as_np(x): return as_arr(x) if isinstance(x, (list, tuple, np.ndarray)) else x
def const(shape, v, kd):
    v = cast_n(N_(v), kd)
    return new(tuple(shape), kd, lambda idx: v)
def exp_(v):
    if v is ZERO: return ONE
    return t.app('exp', (v,), 'R')
def cexp(v): 
    e = exp_(v.re)
    return C2(t.mul(e, t.cos(v.im)), t.mul(e, t.sin(v.im)))
def rint_(v):
    if v.s == 'I': return v
    h = t.floor(t.add(v, K(Fraction(1, 2))))
    # ties to even
    tie = t.eq(t.add(v, K(Fraction(1, 2))), h)
    odd = t.eq(t.mod(h, K(2)), ONE)
    return t.ite(t.and_(tie, odd), t.sub(h, ONE), h)
def un(x, f, kd, cf=None):
    if isinstance(x, SymMA): return x.map(lambda a: un(a, f, kd, cf))
    if isinstance(x, C2):
        if cf is None: raise Unsupported('complex elementwise')
        return cf(x)
    if isinstance(x, S) or isnum(x):
        n = N_(x)
        if isinstance(n, C2): return cf(n)
        return W(f(tonum(n) if kd != 'b' else n))
    a = as_arr(x)
    if a.kind == 'c':
        if cf is None: raise Unsupported('complex elementwise')
        return mapu(lambda v: cf(v), a, 'c')
    r = mapu((lambda v: f(v)) if kd == 'b' else (lambda v: cast_n(f(tonum(v)), kd or (a.kind if a.kind != 'b' else 'i'))), a, kd or (a.kind if a.kind != 'b' else 'i'))
    return r if r.ndim else W(r.at(()))
def bi(a, b, f, kd):
    A, B_ = as_arr(a), as_arr(b)
    sh = bshape((A.shape_, B_.shape_)); ga, gb = bget(A, sh), bget(B_, sh)
    k2 = kd or promote({A.kind, B_.kind})
    r = new(sh, k2, lambda i: f(ga(i) if kd == 'b' else tonum(ga(i)), gb(i) if kd == 'b' else tonum(gb(i))))
    return r if sh else W(r.at(()))
def sum_(j, lo, hi, body):
    if isinstance(body, C2): return C2(sum_(j, lo, hi, body.re), sum_(j, lo, hi, body.im))
    if body.s == 'B': body = tonum(body)
    if j not in t.fv(body):
        n = t.sub(hi, lo)
        if R.holds(t.le(ZERO, n)): return t.mul(body, n)
    if lo.k == 'K' and hi.k == 'K' and hi.a - lo.a <= 40:
        return t.add(*[t.subst(body, {j: K(i)}) for i in range(int(lo.a), int(hi.a))])
    return t.summ(j, lo, hi, body)
def axes_of(x, axis):
    if axis is None: return list(range(x.ndim))
    if isinstance(axis, int):
        if not -x.ndim <= axis < x.ndim: raise np.exceptions.AxisError(axis, x.ndim)
        return [axis % x.ndim]
    for a in axis: axes_of(x, int(a))
    return sorted(a % x.ndim for a in axis)
def reduce_(x, axis, op, kd, keepdims=False):
    ax = axes_of(x, axis); f = x.frozen(); keep = [d for d in range(x.ndim) if d not in ax]
    def fn(idx):
        if keepdims: idx = tuple(idx[d] for d in keep)
        full = [None] * x.ndim
        for d, i in zip(keep, idx): full[d] = i
        js = [(d, t.fresh('j', 'I')) for d in ax]
        for d, j in js: full[d] = j
        v = f(tuple(full))
        for d, j in reversed(js): v = op(j, ZERO, x.shape_[d], v)
        return v
    sh = tuple((ONE if d in ax else x.shape_[d]) for d in range(x.ndim)) if keepdims else tuple(x.shape_[d] for d in keep)
    if not sh: return W(fn(()))
    return new(sh, kd, fn)
def quant(x, axis, all_):
    ax = axes_of(x, axis); f = x.frozen(); keep = [d for d in range(x.ndim) if d not in ax]
    if all(x.shape_[d].k == 'K' for d in ax):
        def fn(idx):
            vs = []
            for c in np.ndindex(*[int(x.shape_[d].a) for d in ax]):
                full = [None] * x.ndim
                for d, i in zip(keep, idx): full[d] = i
                for d, i in zip(ax, c): full[d] = K(i)
                vs.append(tob(f(tuple(full))))
            return t.and_(*vs) if all_ else t.or_(*vs)
    else:
        # a truth value with its defining facts, named by its content
        G = [t.fresh('g', 'I') for _ in keep]; J = [t.fresh('q', 'I') for _ in ax]
        full = [None] * x.ndim
        for d, i in zip(keep, G): full[d] = i
        for d, j in zip(ax, J): full[d] = j
        v = tob(f(tuple(full)))
        v = t.not_(v) if all_ else v                   # all(v) = not any(not v)
        dims = [x.shape_[d] for d in ax]
        rng = t.and_(*[t.and_(t.le(ZERO, j), t.lt(j, d)) for j, d in zip(J, dims)])
        lift = lift_quant(v, G, J, dims, 'any')
        def fn(idx):
            m = dict(zip(G, idx)); b = t.subst(v, m)
            if R.holds(t.implies(rng, t.not_(b))): return TRUE if all_ else FALSE
            if R.holds(t.implies(rng, b)) and all(R.holds(t.lt(ZERO, d)) for d in dims): return FALSE if all_ else TRUE
            a = lift(idx)
            return t.not_(a) if all_ else a
    if not keep: return W(fn(()))
    return new(tuple(x.shape_[d] for d in keep), 'b', fn)
_anymemo = {}
def lift_quant(v, G, J, dims, kind):
    """function from index terms to: v holds for some J within dims / the extreme of v over J within dims"""
    other = sorted((t.fv(v) | frozenset().union(*[t.fv(d) for d in dims])) - set(G) - set(J), key=lambda w: w.id)
    pos = [t.var('%%p%d' % i, 'I') if w.s == 'I' else t.var('%%pr%d' % i, w.s) for i, w in enumerate(list(other) + list(G))]
    jv = [t.var('%%q%d' % i, 'I') for i in range(len(J))]
    ren = dict(zip(list(other) + list(G), pos)); ren.update(zip(J, jv))
    body = t.subst(v, ren); dm = tuple(t.subst(d, ren) for d in dims)
    key = (body, dm, len(pos), kind)
    nm = _anymemo.get(key)
    if nm is None:
        nm = '%s#%d' % (kind, len(_anymemo)); _anymemo[key] = nm
        P.QUANT[nm] = (tuple(pos), tuple(jv), body, dm, kind)
    return lambda idx: t.app(nm, tuple(other) + tuple(idx), v.s)
def argext(x, axis, which):
    """position of the extreme of an array of one dimension: a function of the values, within the array"""
    if x.ndim != 1: raise Unsupported(which + ' of more than one dimension')
    n = x.shape_[0]
    if not R.truth(t.lt(ZERO, n)): raise ValueError('attempt to get %s of an empty sequence' % which)
    j = t.fresh('q', 'I'); body = tonum(x.frozen()((j,)))
    other = sorted((t.fv(body) | t.fv(n)) - {j}, key=lambda w: w.id)
    pos = [t.var('%%p%d' % i, 'I') if w.s == 'I' else t.var('%%pr%d' % i, w.s) for i, w in enumerate(other)]
    ren = dict(zip(other, pos)); ren[j] = t.var('%q0', 'I')
    key = (t.subst(body, ren), t.subst(n, ren), len(pos), which)
    nm = _anymemo.setdefault(key, '%s#%d' % (which, len(_anymemo)))
    v = t.app(nm, tuple(other), 'I')
    R.fact(t.le(ZERO, v)); R.fact(t.lt(v, n))
    return W(v)
def extreme(x, axis, which):
    ax = axes_of(x, axis); f = x.frozen(); keep = [d for d in range(x.ndim) if d not in ax]
    mm = t.maxn if which == 'max' else t.minn
    for d in ax:
        if not R.truth(t.lt(ZERO, x.shape_[d])): raise ValueError('zero-size array to reduction operation')
    if all(x.shape_[d].k == 'K' for d in ax):
        def fn(idx):
            r = None
            for c in np.ndindex(*[int(x.shape_[d].a) for d in ax]):
                full = [None] * x.ndim
                for d, i in zip(keep, idx): full[d] = i
                for d, i in zip(ax, c): full[d] = K(i)
                v = tonum(f(tuple(full))); r = v if r is None else mm(r, v)
            return r
    else:
        G = [t.fresh('g', 'I') for _ in keep]; J = [t.fresh('q', 'I') for _ in ax]
        full = [None] * x.ndim
        for d, i in zip(keep, G): full[d] = i
        for d, j in zip(ax, J): full[d] = j
        body = tonum(f(tuple(full))); dm = [x.shape_[d] for d in ax]
        lift = lift_quant(body, G, J, dm, which)
        def fn(idx):
            m = dict(zip(G, idx)); b = t.subst(body, m)
            if not any(j in t.fv(b) for j in J): return b
            # monotone integer progressions
            if len(J) == 1:
                co = t._lin(b)[1].get(J[0])
                if co is not None and J[0] not in t.fv(t.sub(b, t.scale(co, J[0]))):
                    return t.subst(b, {J[0]: t.sub(dm[0], ONE) if (co > 0) == (which == 'max') else ZERO})
            return lift(idx)
    if not keep: return W(fn(()))
    return new(tuple(x.shape_[d] for d in keep), x.kind, fn)

def pow_(a, b):
    if isinstance(a, (SArr, S, C2)) or isinstance(b, (SArr, S, C2)):
        if isinstance(a, (SArr,)) or isinstance(b, SArr) or isinstance(a, np.ndarray) or isinstance(b, np.ndarray): return binop(OPS['**'], a, b)
        return a ** b
    return a ** b

def tofloat(x):
    if isinstance(x, (SArr, np.ndarray)) and as_arr(x).ndim:
        if as_arr(x).ndim == 1 and False: pass
        return as_arr(x).astype(float)
    if isinstance(x, (S, SArr)):
        n = N_(x); return S(tonum(n)) if n.k != 'K' else S(n)
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool): return S(K(Fraction(int(x))))
    if isinstance(x, (float, np.floating)) and math.isfinite(x): return S(N_(x))
    if isinstance(x, str):
        if x.startswith('<'): raise Unsupported('number printed under a condition')
        v = float(x)
        if sym.TEXT and abs(v) > 1e35 and math.isfinite(v): return S(sym.fromtext(v))
        return S(K(Fraction(x.strip().lower().replace('d', 'e')))) if math.isfinite(v) else v
    return float(x)
def toint(x, *a):
    if isinstance(x, (SArr, np.ndarray)) and as_arr(x).ndim: return as_arr(x).astype(int)
    if isinstance(x, (S, SArr)): return W(sym.trunc(N_(x)))
    if sym.TEXT and isinstance(x, str) and len(x.strip()) > 60: return W(sym.trunc(sym.fromtext(float(x))))
    return int(x, *a)

import weakref
DIAG = weakref.WeakKeyDictionary()
def diagonal(a):
    """vector of a matrix made by diag and not changed since"""
    e = DIAG.get(a.buf) if a.ndim == 2 else None
    return e[2] if e is not None and e[1] is a and a.buf.fn is e[0] else None
def small(a):
    """entries of a matrix of fixed small size"""
    a = as_arr(a)
    if a.ndim != 2 or any(d.k != 'K' for d in a.shape_) or a.shape_[0].a != a.shape_[1].a or int(a.shape_[0].a) > 4: raise Unsupported('matrix of symbolic or large size')
    n = int(a.shape_[0].a)
    return n, [[tonum(a.at((K(i), K(j)))) for j in range(n)] for i in range(n)]
def det(m):
    if not m: return ONE
    return t.add(*[t.mul(K((-1) ** j), m[0][j], det([r[:j] + r[j + 1:] for r in m[1:]])) for j in range(len(m))])
def adjugate(m):
    n = len(m); minor = lambda i, j: [r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]
    return [[t.mul(K((-1) ** (i + j)), det(minor(j, i))) for j in range(n)] for i in range(n)]

class Linalg:
    """inverses and least squares by their contracts: exact, of matrices of full rank (other matrices raise)"""
    def inv(self, a):
        if not symbolic((a,)): return np.linalg.inv(a)
        n, m = small(a)
        d = det(m)
        R.assume_after(t.ne(d, ZERO))
        r = adjugate(m); q = t.div(ONE, d)
        return as_arr([[W(t.mul(r[i][j], q)) for j in range(n)] for i in range(n)])
    def lstsq(self, a, b, rcond=None):
        if not symbolic((a, b)): return np.linalg.lstsq(a, b, rcond=rcond)
        a, b = as_arr(a), as_arr(b)
        x = NPI.dot(self.inv(NPI.dot(a.transpose(), a)), NPI.dot(a.transpose(), b))
        return x, None, None, None
    def __getattr__(self, a):
        real = getattr(np.linalg, a)
        def f(*args, **kw):
            if symbolic(args): raise Unsupported('numpy.linalg.' + a)
            return real(*args, **kw)
        return f

class MA:
    """numpy.ma"""
    MaskedArray = np.ma.MaskedArray
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        def f(*args, **kw):
            if symbolic(args) or symbolic(tuple(kw.values())): raise Unsupported('numpy.ma.' + a)
            return getattr(np.ma, a)(*args, **kw)
        return f
    def array(self, data, mask=None, fill_value=None, **kw):
        if not symbolic(data) and not symbolic(mask): return np.ma.array(data, mask=mask if mask is not None else False, fill_value=fill_value, **kw)
        d = as_arr(data).copy()
        m = const(d.shape_, False, 'b') if mask is None or mask is False else NPI.broadcast_to(as_arr(mask).astype(bool) if True else mask, d.shape)
        return SMA(d, m.copy(), fill_value)
    def zeros(self, shape, fill_value=None, dtype=None, **k):
        d = NPI.zeros(shape, dtype); return SMA(d, const(d.shape_, False, 'b'), fill_value)
    def zeros_like(self, x):
        d = NPI.zeros_like(x.data if isinstance(x, SMA) else x); return SMA(d, const(d.shape_, False, 'b'), getattr(x, 'fill_value', None))
    def isMA(self, x): return isinstance(x, (SymMA, np.ma.MaskedArray))
    isMaskedArray = isMA; isarray = isMA
    def getmaskarray(self, x): return x.mask
    def getmask(self, x): return x.mask

class SMA(SymMA):
    """masked array: data, mask, fill value (elementwise operations only)"""
    __array_ufunc__ = None
    def __init__(self, data, mask, fill=None):
        self.data, self.mask_, self.fill_value = data, mask, fill
    @property
    def mask(self): return self.mask_
    @mask.setter
    def mask(self, m):
        self.mask_[...] = m
    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)
    dtype = property(lambda s: s.data.dtype)
    size = property(lambda s: s.data.size)
    kind = property(lambda s: s.data.kind)
    def copy(self): return SMA(self.data.copy(), self.mask_.copy(), self.fill_value)
    def filled(self, v=None):
        return NPI.where(self.mask_, self.fill_value if v is None else v, self.data)
    def __getitem__(self, key):
        d, m = self.data[key], self.mask_[key]
        if not isinstance(d, SArr): raise Unsupported('masked scalar')
        return SMA(d, m, self.fill_value)
    def __setitem__(self, key, v):
        if isinstance(v, SMA):
            self.data[key] = v.data; self.mask_[key] = v.mask_
        else:
            self.data[key] = v; self.mask_[key] = False
    def map(self, f): return SMA(f(self.data), self.mask_.copy(), self.fill_value)
    def _b(self, o, f, r=False):
        od = o.data if isinstance(o, SMA) else o
        m = self.mask_ | o.mask_ if isinstance(o, SMA) else self.mask_.copy()
        d = f(od, self.data) if r else f(self.data, od)
        # masked entries keep the first operand's data
        base = self.data
        return SMA(NPI.where(m, base, d), NPI.broadcast_to(m, d.shape).copy(), self.fill_value)
    def __add__(s, o): return s._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(s, o): return s._b(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._b(o, lambda a, b: a - b, True)
    def __mul__(s, o): return s._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(s, o): return s._b(o, lambda a, b: a / b)
    def __pow__(s, o): return s._b(o, lambda a, b: a ** b)

NPI = NP('numpy')
NPI.linalg = Linalg()
NPI.ma = MA()
NPI.ndarray = np.ndarray
R.np = NPI

class MathM(types.ModuleType):
    pi = S(t.PI); e = math.e; inf = math.inf; nan = math.nan
    def __getattr__(self, a):
        r = getattr(math, a)
        def f(*x):
            if not symbolic(x): return r(*x)
            g = {'fabs': 'abs'}.get(a, a)
            if a == 'floor': return W(sym.rfloor(N_(x[0])))
            if a == 'ceil': return W(t.neg(t.floor(t.neg(N_(x[0])))))
            if hasattr(NP, g): return getattr(NPI, g)(*x)
            raise Unsupported('math.' + a)
        return f if callable(r) else r
MATH = MathM('math')

class _Ext(types.ModuleType):
    """an external module whose functions are only usable on concrete values or through a contract"""
    def __init__(self, nm, real=None):
        super().__init__(nm); self.__dict__['_nm'] = nm; self.__dict__['_real'] = real
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        import importlib
        try: r = getattr(importlib.import_module(self._nm), a)
        except AttributeError:
            try: r = importlib.import_module(self._nm + '.' + a)
            except ImportError: raise AttributeError(a)
        if isinstance(r, types.ModuleType):
            m = _Ext(self._nm + '.' + a); self.__dict__[a] = m; return m
        if isinstance(r, type) or not callable(r): return r
        nm = self._nm
        return _ExtFn(nm + '.' + a, r)
class _ExtFn:
    def __init__(self, nm, r): self.__name__ = nm.split('.')[-1]; self._nm = nm; self._r = r
    def __call__(self, *x, **k):
        if self._nm in EXTERNAL and not k and symbolic(x): return W(t.app('ext_' + self._nm, tuple(N_(v) for v in x), 'R'))
        if symbolic(x) or symbolic(tuple(k.values())): raise Unsupported(self._nm)
        return self._r(*x, **k)
    def __getattr__(self, a):
        if a.startswith('__'): raise AttributeError(a)
        return _ExtFn(self._nm + '.' + a, getattr(self._r, a))
# real functions of numbers, about which nothing is assumed
EXTERNAL = {'scipy.special.erf', 'scipy.stats.t.ppf'}

# ---- the runtime object referenced by transformed code ---------------------------------------
class _Meta(type):
    pass
def isinst(x, c):
    if isinstance(c, tuple): return any(isinst(x, y) for y in c)
    if isinstance(x, SArr): return c in (np.ndarray, SArr, object) 
    if isinstance(x, SymMA): return c in (np.ma.MaskedArray, np.ndarray, SymMA)
    if isinstance(x, S):
        s = x.n.s
        if c in (S,): return True
        if s == 'I': return c in (int, np.integer, numbers.Integral, numbers.Number, object)
        if s == 'R': return c in (float, np.floating, numbers.Real, numbers.Number, object, np.float64)
        return c in (bool, np.bool_)
    if isinstance(x, SymSeq): return c in (list, tuple, range) 
    if c is frange: c = range
    if c in TYPEMAP: c = TYPEMAP[c]
    return isinstance(x, c)
TYPEMAP = {}

class _TypeShim:
    """int / float / range / ... usable both as converter and as a type"""
    def __init__(self, real, f): self.real = real; self.f = f; self.__name__ = real.__name__; TYPEMAP[self] = real
    def __call__(self, *a, **k): return self.f(*a, **k)
    def __getattr__(self, a): return getattr(self.real, a)
    def __eq__(self, o): return o is self or o is self.real
    def __hash__(self): return hash(self.real)
def _dt(d): return d.real if isinstance(d, _TypeShim) else d
def flen(x):
    if isinstance(x, SArr):
        if not x.shape_: raise TypeError('len() of unsized object')
        return W(x.shape_[0])
    if isinstance(x, SymSeq): return W(x.n)
    if isinstance(x, SymMA): return flen(x.data)
    return len(x)
def frange_(*a):
    if symbolic(a):
        n = [N_(x) for x in a]
        if any(x.s != 'I' for x in n): raise TypeError("'float' object cannot be interpreted as an integer")
        if all(x.k == 'K' for x in n): return range(*[int(x.a) for x in n])
        if len(n) == 1: return SymRange(ZERO, n[0], ONE)
        return SymRange(n[0], n[1], n[2] if len(n) > 2 else ONE)
    return range(*a)
def fenumerate(it, start=0):
    s = sym.as_seq(it)
    if isinstance(s, SymSeq):
        return SymSeq(s.n, lambda k: (W(t.add(k, K(start))), s.item(k)))
    return enumerate(s, start)
def fzip(*its):
    ss = [sym.as_seq(i) for i in its]
    if any(isinstance(s, SymSeq) for s in ss):
        if not all(isinstance(s, SymSeq) for s in ss): raise Unsupported('zip')
        for s in ss[1:]:
            if not R.truth(t.eq(s.n, ss[0].n)): raise Unsupported('zip of different lengths')
        return SymSeq(ss[0].n, lambda k: tuple(s.item(k) for s in ss))
    return zip(*ss)
def flist(x=()):
    s = sym.as_seq(x)
    return s if isinstance(s, SymSeq) else list(s)
def ftuple(x=()):
    s = sym.as_seq(x)
    return s if isinstance(s, SymSeq) else tuple(s)
def fsum(x, start=0):
    s = sym.as_seq(x)
    if isinstance(s, SymSeq): return NPI.sum(s.arr()) + start
    return sum(s, start)
def fabs(x): return abs(as_np(x))
def fmax(*a, **k):
    if k: return max(*a, **k)
    xs = list(a) if len(a) > 1 else sym.as_seq(a[0])
    if isinstance(xs, SymSeq): return NPI.max(xs.arr())
    xs = list(xs)
    if not symbolic(xs): return max(xs)
    r = xs[0]
    for x in xs[1:]: r = W(t.maxn(N_(r), N_(x)))
    return r
def fmin(*a, **k):
    if k: return min(*a, **k)
    xs = list(a) if len(a) > 1 else sym.as_seq(a[0])
    if isinstance(xs, SymSeq): return NPI.min(xs.arr())
    xs = list(xs)
    if not symbolic(xs): return min(xs)
    r = xs[0]
    for x in xs[1:]: r = W(t.minn(N_(r), N_(x)))
    return r
def fround(x, nd=None):
    if isinstance(x, S):
        if nd: raise Unsupported('round')
        return W(rint_(x.n))
    return round(x, nd) if nd is not None else round(x)
def fany(x):
    s = sym.as_seq(x)
    if isinstance(s, SymSeq): return NPI.any(s.arr())
    return DV.or_(*[(lambda v: lambda: v)(v) for v in s]) or False
def fall(x):
    s = sym.as_seq(x)
    if isinstance(s, SymSeq): return NPI.all(s.arr())
    l = list(s)
    return DV.and_(*[(lambda v: lambda: v)(v) for v in l]) if l else True
def fdivmod(a, b): return (a // b, a % b)
def ftype(x):
    return type(x)
frange = None

class _DV:
    Unsupported = Unsupported
    If = staticmethod(lambda test, site, forkable: sym.If(test, site, forkable))
    Loop = staticmethod(sym.Loop)
    setattr_ = staticmethod(sym.setattr_)
    mutated = staticmethod(sym.mutated)
    @staticmethod
    def stored(x):
        if isinstance(x, np.ndarray) and x.dtype.kind in 'fiubc' and R.frames:
            raise Unsupported('store into a concrete array inside a symbolic branch')
        if isinstance(x, (list, dict)): sym.mutated(x)
        return x
    @staticmethod
    def get(f):
        try: return f()
        except NameError: return sym.UNB
    @staticmethod
    def lit(s, v=None): return S(K(Fraction(s)))
    @staticmethod
    def clit(s): return C2(ZERO, K(Fraction(s)))
    @staticmethod
    def div(a, b):
        if isinstance(a, (bool, int, np.integer)) and isinstance(b, (bool, int, np.integer)):
            if b == 0: raise ZeroDivisionError('division by zero')
            return S(K(Fraction(int(a), int(b))))
        if isinstance(a, (int, float, S)) and isinstance(b, (int, float, S)):
            n = N_(b)
            if n.k == 'K' and n.a == 0: raise ZeroDivisionError('float division by zero')
            if isinstance(a, (float, int)) and isinstance(b, (float, int)): return S(t.div(N_(a), n))
        return a / b
    idiv_ = staticmethod(lambda a, b: _DV._idiv(a, b))
    @staticmethod
    def _idiv(a, b):
        if isinstance(a, SArr): a /= b; return a
        return _DV.div(a, b)
    @staticmethod
    def pow(a, b): return pow_(a, b)
    @staticmethod
    def mod(a, b):
        return a % b
    @staticmethod
    def fork(x):
        if isinstance(x, S):
            return R.decide(x.n if x.n.s == 'B' else t.ne(x.n, ZERO))
        return bool(x)
    @staticmethod
    def _cond(v):
        """symbolic boolean term of v, or None"""
        if isinstance(v, S):
            n = v.n if v.n.s == 'B' else t.ne(v.n, ZERO)
            if n.k == 'K': return None
            if R.holds(n): return TRUE
            if R.holds(t.not_(n)): return FALSE
            return n
        return None
    @staticmethod
    def and_(*fs):
        acc = []; mark = len(R.scope); fr = None
        try:
            for i, f in enumerate(fs):
                v = f()
                c = _DV._cond(v)
                if c is None or c is TRUE or c is FALSE:
                    b = (c is TRUE) if c is not None else (bool(v) if not isinstance(v, SArr) else bool(v))
                    if not b:
                        return False if acc else v
                    if i == len(fs) - 1 and not acc: return v
                    continue
                acc.append(c); R.scope.append(c)
            return S(t.and_(*acc)) if acc else True
        finally: del R.scope[mark:]
    @staticmethod
    def or_(*fs):
        acc = []; mark = len(R.scope)
        try:
            for i, f in enumerate(fs):
                v = f()
                c = _DV._cond(v)
                if c is None or c is TRUE or c is FALSE:
                    b = (c is TRUE) if c is not None else bool(v)
                    if b:
                        return True if acc else v
                    if i == len(fs) - 1 and not acc: return v
                    continue
                acc.append(c); R.scope.append(t.not_(c))
            return S(t.or_(*acc)) if acc else False
        finally: del R.scope[mark:]
    @staticmethod
    def not_(v):
        if isinstance(v, S):
            return W(t.not_(v.n if v.n.s == 'B' else t.ne(v.n, ZERO)))
        return not v
    @staticmethod
    def in_(a, b):
        if isinstance(b, SymSeq) or (isinstance(b, SArr) and not all(d.k == 'K' for d in b.shape_)):
            arr = as_arr(b)
            return NPI.any(arr == a)
        if isinstance(b, SArr):
            return fany([x == a for x in b]) if b.ndim == 1 else NPI.any(b == a)
        if symbolic(a) and isinstance(b, (list, tuple, range)):
            return fany([x == a for x in b]) if len(b) else False
        if isinstance(b, (list, tuple)) and symbolic(b) and not isinstance(a, str):
            return fany([x == a for x in b])
        return a in b
    @staticmethod
    def ifexp(c, f, g):
        n = _DV._cond(c)
        if n is None: return f() if c else g()
        if n is TRUE: return f()
        if n is FALSE: return g()
        mark = len(R.scope)
        try:
            R.scope.append(n); a = f(); del R.scope[mark:]
            R.scope.append(t.not_(n)); b = g(); del R.scope[mark:]
            return sym.merge_val(n, a, b)
        except sym.MergeFail:
            del R.scope[mark:]
            return f() if R.decide(n) else g()
    @staticmethod
    def listcomp(f, it, star):
        s = sym.as_seq(it)
        if isinstance(s, SymSeq):
            def item(k):
                mark = len(R.scope); R.scope.append(t.le(ZERO, k)); R.scope.append(t.lt(k, s.n))
                try:
                    x = s.item(k)
                    return f(*x) if star else f(x)
                finally: del R.scope[mark:]
            return SymSeq(s.n, item)
        return [f(*x) if star else f(x) for x in s]
    @staticmethod
    def tobool(x):
        if isinstance(x, SArr) and not x.shape_: x = W(x.at(()))
        if isinstance(x, S) and not isinstance(x.n, C2): return x if x.n.s == 'B' else W(t.ne(x.n, ZERO))
        return bool(x)
    @staticmethod
    def builtins():
        return {'isinstance': isinst, 'len': flen, 'range': _TypeShim(range, frange_), 'enumerate': fenumerate,
                'zip': fzip, 'int': _TypeShim(int, toint), 'float': _TypeShim(float, tofloat), 'list': _TypeShim(list, flist),
                'tuple': _TypeShim(tuple, ftuple), 'sum': fsum, 'abs': fabs, 'max': fmax, 'min': fmin,
                'any': fany, 'all': fall, 'round': fround, 'divmod': fdivmod, 'setattr': sym.setattr_}
DV = _DV

from . import dtshim as _dtshim
for _n in ('float64', 'float32', 'float_', 'double', 'longdouble'):
    if hasattr(np, _n): setattr(NPI, _n, _TypeShim(getattr(np, _n), lambda x=0: tofloat(x)))
for _n in ('int64', 'int32', 'int_', 'int16', 'int8', 'uint8', 'intc'):
    if hasattr(np, _n): setattr(NPI, _n, _TypeShim(getattr(np, _n), lambda x=0: toint(x)))
NPI.datetime64 = _dtshim.datetime64; NPI.timedelta64 = _dtshim.timedelta64
