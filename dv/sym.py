"""Symbolic scalars, arrays, path exploration, branch merging and loop summaries."""
import numpy as _np, math, numbers, sys, os, re
from fractions import Fraction
from . import terms as t
from .terms import TRUE, FALSE, ZERO, ONE, K, N
from . import prove as P

class Unsupported(BaseException):
    pass
class Infeasible(BaseException):
    pass

# ---- numbers printed to text and read back: the text of a symbolic number is a numeral of its own,
# and reading that numeral gives the number again (the precision of the format is not modelled)
TEXT = {}
_tok = {}
def totext(n, spec=''):
    if n.k == 'K': return format(int(n.a) if n.s == 'I' else (n.a if n.s == 'B' else float(n.a)), spec)
    if R.scope or R.frames or n.s == 'B': return '<%s>' % n
    x = _tok.get(n)
    if x is None:
        j = len(_tok) + 1
        x = _tok[n] = '7.%07dE+77' % j if n.s == 'R' else '7%07d' % j + '0' * 70
        TEXT[float(x)] = n
    w = re.match(r'(?:.?[<>^=])?[-+ ]?0?(\d*)', spec).group(1)
    return x.rjust(int(w)) if w else x
def fromtext(v):
    n = TEXT.get(v)
    if n is not None: return n
    n = TEXT.get(-v)
    if n is not None: return t.neg(n)
    raise Unsupported('native arithmetic on numbers read from text')
def tokens(x):
    """a native float array holding numbers read from text"""
    return bool(TEXT) and isinstance(x, _np.ndarray) and x.dtype.kind == 'f' and x.size and bool(_np.any(_np.abs(x[_np.isfinite(x)]) > 1e35))

# =============================================================================== values
_cf = {}
def N_(v):
    """python / numpy scalar -> term (complex -> C2)"""
    if isinstance(v, S): return v.n
    if isinstance(v, N): return v
    if isinstance(v, C2): return v
    if v is True or v is False: return K(v)
    if isinstance(v, _np.bool_): return K(bool(v))
    if isinstance(v, numbers.Integral): return K(int(v))
    if isinstance(v, Fraction): return K(v)
    if isinstance(v, (float, _np.floating)):
        v = float(v)
        if v != v: return t.app('nan', (), 'R')
        if v in (math.inf, -math.inf):
            r = t.app('inf', (), 'R')
            return r if v > 0 else t.neg(r)
        if TEXT and (v > 1e35 or v < -1e35): return fromtext(v)
        return K(Fraction(repr(v)))
    if isinstance(v, (complex, _np.complexfloating)):
        return C2(N_(float(v.real)), N_(float(v.imag)))
    if isinstance(v, SArr) and all(d.k == 'K' and d.a == 1 for d in v.shape_):
        return v.at((ZERO,) * len(v.shape_))
    if isinstance(v, _np.ndarray) and v.size == 1:
        return N_(v.reshape(-1)[0])
    raise Unsupported('not a number: %s' % type(v).__name__)

def isnum(v):
    return isinstance(v, (S, C2, numbers.Number, _np.number, _np.bool_)) 

class KInt(int):
    """a known integer out of an array (scalars of NumPy have a copy)"""
    __slots__ = ()
    def copy(self): return self

def W(n):
    """term -> python value"""
    if isinstance(n, C2): return n
    if n.k == 'K':
        if n.s == 'B': return n.a
        if n.s == 'I': return KInt(n.a)
    return S(n)

class S:
    """symbolic (or exact rational) scalar"""
    __slots__ = ('n',)
    __array_ufunc__ = None
    ndim = 0; shape = (); size = 1
    def __init__(self, n): self.n = n
    def __repr__(self): return 'S(%s)' % self.n
    def __format__(self, spec): return totext(self.n, spec)
    def __str__(self): return totext(self.n)
    def __hash__(self): return hash(self.n)
    def _b(self, o, f, r=False):
        if isinstance(o, SArr): return NotImplemented
        if isinstance(o, _np.ndarray): 
            if o.ndim == 0: o = o[()]
            else: return binop(f, o, self) if r else binop(f, self, o)
        if isinstance(o, C2): return NotImplemented
        if not isnum(o): return NotImplemented
        b = N_(o)
        if isinstance(b, C2):
            a = C2(self.n, ZERO)
            return cop(f, b, a) if r else cop(f, a, b)
        return W(f(b, self.n) if r else f(self.n, b))
    def __add__(s, o): return s._b(o, OPS['+'])
    def __radd__(s, o): return s._b(o, OPS['+'], True)
    def __sub__(s, o): return s._b(o, OPS['-'])
    def __rsub__(s, o): return s._b(o, OPS['-'], True)
    def __mul__(s, o): return s._b(o, OPS['*'])
    def __rmul__(s, o): return s._b(o, OPS['*'], True)
    def __truediv__(s, o): return s._b(o, OPS['/'])
    def __rtruediv__(s, o): return s._b(o, OPS['/'], True)
    def __floordiv__(s, o): return s._b(o, OPS['//'])
    def __rfloordiv__(s, o): return s._b(o, OPS['//'], True)
    def __mod__(s, o): return s._b(o, OPS['%'])
    def __rmod__(s, o): return s._b(o, OPS['%'], True)
    def __pow__(s, o): return s._b(o, OPS['**'])
    def __rpow__(s, o): return s._b(o, OPS['**'], True)
    def __neg__(s): return W(t.neg(s.n))
    def __pos__(s): return s
    def __abs__(s): return W(t.absn(s.n))
    def __lt__(s, o): return s._b(o, OPS['<'])
    def __le__(s, o): return s._b(o, OPS['<='])
    def __gt__(s, o): return s._b(o, OPS['>'])
    def __ge__(s, o): return s._b(o, OPS['>='])
    def __eq__(s, o):
        if o is None or isinstance(o, str): return False
        return s._b(o, OPS['=='])
    def __ne__(s, o):
        if o is None or isinstance(o, str): return True
        return s._b(o, OPS['!='])
    def __and__(s, o): return s._b(o, OPS['&'])
    __rand__ = __and__
    def __or__(s, o): return s._b(o, OPS['|'])
    __ror__ = __or__
    def __invert__(s): return W(t.not_(s.n))
    def __bool__(s):
        n = s.n
        if n.s != 'B': n = t.ne(n, ZERO)
        return R.decide(n)
    def __index__(s):
        r = R.concrete(s.n)
        if r is None: raise Unsupported('symbolic value used as a native index: %s' % s.n)
        return r
    def __int__(s):
        if s.n.k == 'K': return int(s.n.a)
        raise Unsupported('int() of symbolic value outside the shim')
    def __float__(s):
        if s.n.k == 'K': return float(s.n.a)
        if s.n is t.PI: return math.pi
        if not t.fv(s.n) and not (t.syms(s.n) - {'pi', 'sqrt', 'floor', '#I'}):
            return evalf(s.n)
        raise Unsupported('float() of symbolic value outside the shim')
    def __round__(s, nd=None): raise Unsupported('round')
    # numpy scalar api
    def astype(s, dt): return cast_scalar(s, kind(dt))
    def copy(s): return s
    @property
    def real(s): return s
    @property
    def imag(s): return 0
    @property
    def T(s): return s
    @property
    def dtype(s): return _np.dtype({'I': 'i8', 'R': 'f8', 'B': '?'}[s.n.s])
    def item(s): return s
    def conj(s): return s
    conjugate = conj
    def is_integer(s): return W(t.eq(s.n, t.floor(s.n)))
    def sum(s, *a, **k): return s
    def flatten(s): return as_arr(s).reshape_((ONE,))
    def min(s, *a, **k): return s
    max = min
    def __getitem__(s, key):
        return as_arr(s)[key]

def evalf(n):
    k = n.k
    if k == 'K': return float(n.a) if n.s != 'B' else n.a
    if k == 'A': return float(n.a[0]) + sum(float(c) * evalf(x) for x, c in n.a[1])
    if k == 'M':
        r = 1.0
        for x, e in n.a: r *= evalf(x) ** e
        return r
    if k == 'F':
        if n.a[0] == 'pi': return math.pi
        if n.a[0] == 'sqrt': return math.sqrt(evalf(n.a[1][0]))
        if n.a[0] == 'floor': return math.floor(evalf(n.a[1][0]))
    raise Unsupported('evalf')

def _ty(v): return K(v)
class C2:
    """complex value: a pair of terms"""
    __slots__ = ('re', 'im')
    __array_ufunc__ = None
    ndim = 0; shape = ()
    def __init__(s, re, im): s.re = re; s.im = im
    def _c(s, o, f, r=False):
        if isinstance(o, SArr): return NotImplemented
        if isinstance(o, _np.ndarray): return binop(f, o, s) if r else binop(f, s, o)
        if not isnum(o): return NotImplemented
        b = N_(o)
        if not isinstance(b, C2): b = C2(b, ZERO)
        return cop(f, b, s) if r else cop(f, s, b)
    def __add__(s, o): return s._c(o, OPS['+'])
    def __radd__(s, o): return s._c(o, OPS['+'], True)
    def __sub__(s, o): return s._c(o, OPS['-'])
    def __rsub__(s, o): return s._c(o, OPS['-'], True)
    def __mul__(s, o): return s._c(o, OPS['*'])
    def __rmul__(s, o): return s._c(o, OPS['*'], True)
    def __truediv__(s, o): return s._c(o, OPS['/'])
    def __rtruediv__(s, o): return s._c(o, OPS['/'], True)
    def __pow__(s, o): return s._c(o, OPS['**'])
    def __neg__(s): return C2(t.neg(s.re), t.neg(s.im))
    @property
    def real(s): return W(s.re)
    @property
    def imag(s): return W(s.im)
    def conj(s): return C2(s.re, t.neg(s.im))
    conjugate = conj
    def __abs__(s): return W(t.sqrt(t.add(t.powi(s.re, 2), t.powi(s.im, 2))))

def cmul(a, b):
    return C2(t.sub(t.mul(a.re, b.re), t.mul(a.im, b.im)), t.add(t.mul(a.re, b.im), t.mul(a.im, b.re)))
def cop(f, a, b):
    nm = OPN[f]
    if nm == '+': return C2(t.add(a.re, b.re), t.add(a.im, b.im))
    if nm == '-': return C2(t.sub(a.re, b.re), t.sub(a.im, b.im))
    if nm == '*': return cmul(a, b)
    if nm == '/':
        d = t.add(t.powi(b.re, 2), t.powi(b.im, 2))
        n = cmul(a, C2(b.re, t.neg(b.im)))
        return C2(t.div(n.re, d), t.div(n.im, d))
    if nm == '**' and b.im is ZERO and b.re.k == 'K' and b.re.s == 'I' and b.re.a >= 0:
        r = C2(ONE, ZERO)
        for _ in range(int(b.re.a)): r = cmul(r, a)
        return r
    if nm == '==': return W(t.and_(t.eq(a.re, b.re), t.eq(a.im, b.im)))
    if nm == '!=': return W(t.not_(t.and_(t.eq(a.re, b.re), t.eq(a.im, b.im))))
    raise Unsupported('complex ' + nm)

def tonum(n):
    return t.ite(n, ONE, ZERO) if n.s == 'B' else n
def _num(f): return lambda a, b: f(tonum(a), tonum(b))
def powf(a, b):
    a, b = tonum(a), tonum(b)
    if b.k == 'K':
        if b.a.denominator == 1: return t.powi(a, int(b.a))
        if b.a.denominator == 2:
            return t.powi(t.sqrt(a), int(b.a.numerator))
    if b.s == 'I': return t.ipow(a, b)
    return t.app('pow', (a, b), 'R')
def _and(a, b):
    if a.s != 'B' or b.s != 'B': raise Unsupported('bitwise and on integers')
    return t.and_(a, b)
def _or(a, b):
    if a.s != 'B' or b.s != 'B': raise Unsupported('bitwise or on integers')
    return t.or_(a, b)
OPS = {'+': _num(t.add), '-': _num(t.sub), '*': _num(t.mul), '/': _num(t.div),
       '//': _num(lambda a, b: rfloor(t.div(a, b))), '%': _num(lambda a, b: t.sub(a, t.mul(b, rfloor(t.div(a, b))))), '**': powf,
       '<': _num(t.lt), '<=': _num(t.le), '>': _num(t.gt), '>=': _num(t.ge),
       '==': t.eq, '!=': t.ne, '&': _and, '|': _or}
_badd = OPS['+']
OPS['=='] = lambda a, b: t.eq(a, b) if a.s == b.s == 'B' else t.eq(tonum(a), tonum(b))
OPS['!='] = lambda a, b: t.not_(OPS['=='](a, b))
OPN = {f: k for k, f in OPS.items()}

def rfloor(e):
    """floor, using what holds on the whole path (and the contract's hints)"""
    r = t.floor(e)
    if r.k == 'K': return r
    hyp = R.known()
    def ok(g): return P.holds(hyp, g, 400)
    for h in R.hints:
        if ok(t.and_(t.le(h, e), t.lt(e, t.add(h, ONE)))): return h
    c, d = t._lin(r)
    for a in list(d):
        if a.k == 'F' and a.a[0] == 'floor':
            x = a.a[1][0]
            if len(t.fv(x)) <= 8 and ok(t.and_(t.le(ZERO, x), t.lt(x, ONE))):
                r = t.sub(r, t.scale(d[a], a))
    return r

def trunc(n):
    if n.s == 'I': return n
    if n.s == 'B': return tonum(n)
    if n.k == 'K':
        return K(int(n.a))
    return t.ite(t.le(ZERO, n), rfloor(n), t.neg(rfloor(t.neg(n)))) if not P.holds(R.known(), t.le(ZERO, n), 300) else rfloor(n)

def kind(dt):
    dt = getattr(dt, 'real', dt) if type(dt).__name__ == '_TypeShim' else dt
    k = _np.dtype(dt).kind
    return 'i' if k == 'u' else k
def cast_n(v, k):
    if k == 'c': return v if isinstance(v, C2) else C2(tonum(v), ZERO)
    if isinstance(v, C2):
        v = v.re
    if k == 'i': return trunc(v)
    if k == 'f': return tonum(v)
    if k == 'b': return v if v.s == 'B' else t.ne(v, ZERO)
    raise Unsupported('dtype kind ' + k)
def cast_scalar(s, k): return W(cast_n(N_(s), k))

# =============================================================================== arrays
def cell(memo, fn, idx):
    """element value; a value found under some assumptions is only reused under the same or more of them"""
    sc = tuple(R.scope); l = memo.get(idx)
    if l is None: l = memo[idx] = []
    else:
        for s0, v in l:
            if s0 == sc[:len(s0)]: return v
    v = fn(idx); l.append((sc, v))
    return v

class Buf:
    __slots__ = ('shape', 'kind', 'fn', 'memo', 'ro', 'name', 'serial', '__weakref__')
    def __init__(self, shape, kd, fn, name=None):
        self.serial = R.tick()
        self.shape = tuple(shape); self.kind = kd; self.fn = fn; self.memo = {}; self.ro = None
        self.name = name
    def get(self, idx): return cell(self.memo, self.fn, idx)
    def snapshot(self):
        fn, memo = self.fn, self.memo
        return lambda idx: cell(memo, fn, idx)
    def set(self, fn):
        R.logwrite(self)
        if self.ro: raise Unsupported('write to a merged copy (%s)' % self.ro)
        self.fn = fn; self.memo = {}

def dims(sh): return tuple(N_(d) for d in sh)

class SArr:
    """n-dimensional symbolic array: a view of a buffer"""
    __array_ufunc__ = None
    __slots__ = ('buf', 'shape_', 'map', 'inv', '_fill', '_mask')
    def __init__(self, buf, shape=None, mp=None, inv=None):
        self.buf = buf; self.shape_ = buf.shape if shape is None else tuple(shape)
        self.map = mp; self.inv = inv
    # -- basics
    def at(self, idx):
        return self.buf.get(idx if self.map is None else self.map(idx))
    def frozen(self):
        g = self.buf.snapshot(); m = self.map
        return g if m is None else (lambda idx: g(m(idx)))
    @property
    def kind(self): return self.buf.kind
    @property
    def shape(self): return tuple(W(d) for d in self.shape_)
    @shape.setter
    def shape(self, v): raise Unsupported('shape assignment')
    @property
    def ndim(self): return len(self.shape_)
    @property
    def size(self):
        return W(t.mul(*self.shape_)) if self.shape_ else 1
    @property
    def dtype(self): return _np.dtype({'f': 'f8', 'i': 'i8', 'b': '?', 'c': 'c16'}[self.kind])
    @property
    def T(self): return self.transpose()
    @property
    def real(self): return mapu(lambda v: v.re if isinstance(v, C2) else v, self, 'f' if self.kind == 'c' else self.kind)
    @property
    def imag(self): return mapu(lambda v: v.im if isinstance(v, C2) else ZERO, self, 'f')
    def conj(self): return mapu(lambda v: C2(v.re, t.neg(v.im)) if isinstance(v, C2) else v, self, self.kind)
    conjugate = conj
    @property
    def flat(self): return self.flatten()
    def __repr__(self): return 'SArr(%s,%s)' % (','.join(map(str, self.shape_)), self.kind)
    def __hash__(self): return id(self)
    def __len__(self):
        if not self.shape_: raise TypeError('len() of unsized object')
        d = self.shape_[0]
        if d.k != 'K': raise Unsupported('native len of symbolic array')
        return int(d.a)
    def __iter__(self):
        if not self.shape_: raise TypeError('iteration over a 0-d array')
        n = R.concrete(self.shape_[0])
        if n is None: raise Unsupported('native iteration over symbolic array')
        return (self[i] for i in range(n))
    def __bool__(self):
        if all(d.k == 'K' and d.a == 1 for d in self.shape_):
            return bool(W(self.at((ZERO,) * len(self.shape_))))
        if any(d.k == 'K' and d.a == 0 for d in self.shape_): return False
        if all(R.truth(t.eq(d, ONE)) for d in self.shape_):
            return bool(W(self.at((ZERO,) * len(self.shape_))))
        raise ValueError('The truth value of an array with more than one element is ambiguous')
    def __index__(self):
        if not self.shape_: return W(self.at(())).__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')
    def __int__(self): return int(W(N_(self)))
    def __float__(self): return float(W(N_(self)))
    def __contains__(self, v):
        n = R.concrete(self.shape_[0]) if len(self.shape_) == 1 else None
        if n is None: raise Unsupported('in symbolic array')
        return any(bool(x == v) for x in self)
    # -- arithmetic
    def __add__(s, o): return binop(OPS['+'], s, o)
    def __radd__(s, o): return binop(OPS['+'], o, s)
    def __sub__(s, o): return binop(OPS['-'], s, o)
    def __rsub__(s, o): return binop(OPS['-'], o, s)
    def __mul__(s, o): return binop(OPS['*'], s, o)
    def __rmul__(s, o): return binop(OPS['*'], o, s)
    def __truediv__(s, o): return binop(OPS['/'], s, o)
    def __rtruediv__(s, o): return binop(OPS['/'], o, s)
    def __floordiv__(s, o): return binop(OPS['//'], s, o)
    def __rfloordiv__(s, o): return binop(OPS['//'], o, s)
    def __mod__(s, o): return binop(OPS['%'], s, o)
    def __rmod__(s, o): return binop(OPS['%'], o, s)
    def __pow__(s, o): return binop(OPS['**'], s, o)
    def __rpow__(s, o): return binop(OPS['**'], o, s)
    def __lt__(s, o): return binop(OPS['<'], s, o)
    def __le__(s, o): return binop(OPS['<='], s, o)
    def __gt__(s, o): return binop(OPS['>'], s, o)
    def __ge__(s, o): return binop(OPS['>='], s, o)
    def __eq__(s, o):
        if o is None or isinstance(o, str): return False
        return binop(OPS['=='], s, o)
    def __ne__(s, o):
        if o is None or isinstance(o, str): return True
        return binop(OPS['!='], s, o)
    def __and__(s, o): return binop(OPS['&'], s, o)
    __rand__ = __and__
    def __or__(s, o): return binop(OPS['|'], s, o)
    __ror__ = __or__
    def __neg__(s): return mapu(lambda v: C2(t.neg(v.re), t.neg(v.im)) if isinstance(v, C2) else t.neg(v), s, s.kind)
    def __pos__(s): return s
    def __abs__(s): return mapu(lambda v: N_(abs(v)) if isinstance(v, C2) else t.absn(v), s, 'f' if s.kind == 'c' else s.kind)
    def __invert__(s): return mapu(t.not_, s, 'b')
    def _ip(s, r):
        r = as_arr(r)
        store(s, r); return s
    def __iadd__(s, o): return s._ip(s + o)
    def __isub__(s, o): return s._ip(s - o)
    def __imul__(s, o): return s._ip(s * o)
    def __itruediv__(s, o): return s._ip(s / o)
    def __ifloordiv__(s, o): return s._ip(s // o)
    def __ipow__(s, o): return s._ip(s ** o)
    def __imod__(s, o): return s._ip(s % o)
    def __ior__(s, o): return s._ip(s | o)
    def __iand__(s, o): return s._ip(s & o)
    def __matmul__(s, o): return R.np.dot(s, o)
    def __rmatmul__(s, o): return R.np.dot(o, s)
    # -- indexing
    def __getitem__(self, key): return getitem(self, key)
    def __setitem__(self, key, v): setitem(self, key, v)
    # -- methods
    def copy(self, order=None): return new(self.shape_, self.kind, self.frozen())
    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()
    def astype(self, dt, copy=True):
        k = kind(dt); f = self.frozen()
        if k == 'O' or k == 'U' or k == 'S': raise Unsupported('astype ' + k)
        return new(self.shape_, k, (lambda idx: cast_n(f(idx), k)) if k != self.kind else f)
    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)): ax = tuple(ax[0])
        if not ax or ax == (None,): ax = tuple(range(self.ndim))[::-1]
        ax = tuple(a % self.ndim for a in ax)
        if len(ax) != self.ndim: raise ValueError("axes don't match array")
        pos = {a: i for i, a in enumerate(ax)}
        return view(self, tuple(self.shape_[a] for a in ax),
                    lambda idx: tuple(idx[pos[d]] for d in range(len(ax))),
                    lambda b: (TRUE, tuple(b[a] for a in ax)))
    def squeeze(self, axis=None): return R.np.squeeze(self, axis)
    def flatten(self, order='C'): return R.np.ravel(self).copy()
    def ravel(self, order='C'): return R.np.ravel(self)
    def reshape(self, *sh, order='C'):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)): sh = tuple(sh[0])
        return R.np.reshape(self, sh)
    def reshape_(self, sh):
        return R.np.reshape(self, sh)
    def sum(self, axis=None, **kw): return R.np.sum(self, axis=axis, **kw)
    def mean(self, axis=None, **kw): return R.np.mean(self, axis=axis, **kw)
    def min(self, axis=None, **kw): return R.np.min(self, axis=axis)
    def max(self, axis=None, **kw): return R.np.max(self, axis=axis)
    def any(self, axis=None): return R.np.any(self, axis=axis)
    def all(self, axis=None): return R.np.all(self, axis=axis)
    def dot(self, o): return R.np.dot(self, o)
    def fill(self, v): self[...] = v
    def tolist(self): raise Unsupported('tolist')
    def item(self, *a):
        if a:
            if self.ndim == 1: return self[a[0]]
            if len(a) == self.ndim: return self[a]
            return self.flatten()[a[0]]
        return W(N_(self))
    def argmin(self, axis=None): return R.np.argmin(self, axis=axis)
    def argmax(self, axis=None): return R.np.argmax(self, axis=axis)
    def nonzero(self): return R.np.nonzero(self)
    def view(self, *a): raise Unsupported('view')
    def var(self, *a, **k): raise Unsupported('var')
    def std(self, *a, **k): raise Unsupported('std')
    def cumsum(self, *a, **k): raise Unsupported('cumsum')
    @property
    def data(self): return self

def new(shape, kd, fn, name=None):
    return SArr(Buf(shape, kd, fn, name))

def const_arr(shape, v, kd):
    v = cast_n(N_(v), kd)
    return new(dims(shape), kd, lambda idx: v)

def kindof(v):
    if isinstance(v, C2): return 'c'
    return {'I': 'i', 'R': 'f', 'B': 'b'}[v.s]

def as_arr(x):
    if isinstance(x, SArr): return x
    if isinstance(x, (S, C2, numbers.Number, _np.bool_)):
        v = N_(x)
        return new((), kindof(v), lambda idx: v)
    if isinstance(x, _np.ma.MaskedArray): raise Unsupported('masked array')
    if isinstance(x, _np.ndarray):
        return lift(x)
    if isinstance(x, (list, tuple, range)):
        return stack0(list(x))
    if isinstance(x, SymSeq):
        return x.arr()
    raise Unsupported('array of %s' % type(x).__name__)

def lift(x):
    if x.dtype.kind not in 'fiubc': raise Unsupported('array dtype ' + x.dtype.kind)
    kd = {'u': 'i'}.get(x.dtype.kind, x.dtype.kind)
    data = x.copy(); shape = dims(x.shape)
    def fn(idx):
        if all(i.k == 'K' for i in idx):
            return cast_n(N_(data[tuple(int(i.a) for i in idx)]), kd)
        # table lookup as an ite chain on the first symbolic index
        for d, i in enumerate(idx):
            if i.k != 'K':
                n = data.shape[d]
                if data.size > 400: raise Unsupported('large table')
                if not n: return cast_n(ZERO, kd)       # no element: no valid index
                r = fn(idx[:d] + (K(n - 1),) + idx[d + 1:])
                for j in range(n - 2, -1, -1):
                    r = ite_v(t.eq(i, K(j)), fn(idx[:d] + (K(j),) + idx[d + 1:]), r)
                return r
    return new(shape, kd, fn)

def ite_v(c, a, b):
    if isinstance(a, C2) or isinstance(b, C2):
        a = a if isinstance(a, C2) else C2(a, ZERO); b = b if isinstance(b, C2) else C2(b, ZERO)
        return C2(t.ite(c, a.re, b.re), t.ite(c, a.im, b.im))
    if a.s != b.s:
        if a.s == 'B': a = tonum(a)
        if b.s == 'B': b = tonum(b)
    return t.ite(c, a, b)

def promote(ks):
    for k in 'cfib':
        if k in ks: return k
    raise Unsupported('kinds')

def stack0(items, axis0=True):
    """np.array of a python list"""
    if not items:
        return new((ZERO,), 'f', lambda idx: ZERO)
    if any(isinstance(x, str) for x in items): raise Unsupported('string array')
    if all(isinstance(x, (tuple, list)) for x in items):
        ln = {len(x) for x in items}
        if len(ln) > 1: raise ValueError('inhomogeneous shape')
    arrs = [as_arr(x) for x in items]
    sh = arrs[0].shape_
    for a in arrs[1:]:
        if len(a.shape_) != len(sh): raise ValueError('setting an array element with a sequence')
        for p, q in zip(sh, a.shape_):
            if not R.truth(t.eq(p, q)): raise ValueError('inhomogeneous shape')
    kd = promote({a.kind for a in arrs})
    fs = [a.frozen() for a in arrs]
    def fn(idx):
        i, rest = idx[0], idx[1:]
        if i.k == 'K': return cast_n(fs[int(i.a)](rest), kd)
        r = cast_n(fs[-1](rest), kd)
        for j in range(len(fs) - 2, -1, -1):
            r = ite_v(t.eq(i, K(j)), cast_n(fs[j](rest), kd), r)
        return r
    return new((K(len(items)),) + tuple(sh), kd, fn)

def view(base, shape, mp, inv):
    bm, bi = base.map, base.inv
    m2 = mp if bm is None else (lambda idx: bm(mp(idx)))
    if inv is None: i2 = None
    elif base.map is None: i2 = inv
    elif bi is None: i2 = None
    else:
        def i2(b):
            c1, v = bi(b)
            c2, w = inv(v)
            return t.and_(c1, c2), w
    return SArr(base.buf, shape, m2, i2)

def mapu(f, a, kd=None):
    a = as_arr(a); g = a.frozen()
    if kd is None:
        kd = 'f'
    return new(a.shape_, kd, lambda idx: f(g(idx)))

def bshape(shapes):
    """broadcast shapes"""
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = ONE
        for s in shapes:
            j = d - (nd - len(s))
            if j < 0: continue
            x = s[j]
            if x is cur: continue
            if x is ONE: continue
            if cur is ONE: cur = x; continue
            # both not literally one
            if R.holds(t.eq(x, cur)):
                if x.k == 'K': cur = x
                continue
            if R.truth(t.eq(x, cur)): continue
            if R.truth(t.eq(x, ONE)): continue
            if R.truth(t.eq(cur, ONE)): cur = x; continue
            raise ValueError('operands could not be broadcast together with shapes %s' % (shapes,))
        out.append(cur)
    return tuple(out)

def bget(a, shape):
    """reader of a broadcast to shape"""
    g = a.frozen(); off = len(shape) - len(a.shape_)
    one = [i for i, d in enumerate(a.shape_) if d is ONE and shape[i + off] is not ONE]
    if off == 0 and not one: return g
    # dims provably one but not literally
    def fn(idx):
        idx = list(idx[off:])
        for i in one: idx[i] = ZERO
        return g(tuple(idx))
    return fn

def binop(f, a, b):
    nm = OPN[f]
    for x in (a, b):
        if isinstance(x, (str, dict, type(None))) : raise TypeError('unsupported operand')
        if isinstance(x, SymMA): return NotImplemented
    A, B = as_arr(a), as_arr(b)
    sh = bshape((A.shape_, B.shape_))
    ga, gb = bget(A, sh), bget(B, sh)
    if nm in ('<', '<=', '>', '>=', '==', '!='): kd = 'b'
    elif nm in ('&', '|'): kd = 'b'
    elif nm == '/': kd = 'c' if 'c' in (A.kind, B.kind) else 'f'
    else:
        kd = promote({A.kind, B.kind})
        if kd == 'b': kd = 'i' if nm != '*' else 'b'
        if kd == 'b': f = _and
    if 'c' in (A.kind, B.kind):
        def fn(idx):
            x, y = ga(idx), gb(idx)
            x = x if isinstance(x, C2) else C2(x, ZERO); y = y if isinstance(y, C2) else C2(y, ZERO)
            return N_(cop(f, x, y))
    else:
        def fn(idx): return f(ga(idx), gb(idx))
    r = new(sh, kd, fn)
    if not sh: return W(r.at(()))
    return r

# ---- indexing -------------------------------------------------------------------------
class SSlice: pass

def norm_index(e, n, what='index'):
    """python index e in an axis of length n -> term (with a safety obligation)"""
    if e.k == 'K' and e.a < 0:
        e = t.add(n, e)
    elif e.k != 'K' and not R.holds(t.le(ZERO, e)):
        if R.holds(t.lt(e, ZERO)): e = t.add(n, e)
        else:
            e = t.ite(t.lt(e, ZERO), t.add(n, e), e)
    g = t.and_(t.le(ZERO, e), t.lt(e, n))
    if g is FALSE or (not R.holds(g) and R.holds(t.not_(g))):
        raise IndexError('%s %s is out of bounds for axis of size %s' % (what, e, n))
    if g is not TRUE and not R.holds(g):
        R.oblige(g, 'index in bounds', 'safety')
        R.assume_after(g)
    return e

def slice_bounds(sl, n):
    st = 1 if sl.step is None else sl.step
    st = R.concrete(N_(st))
    if st is None or st == 0: raise Unsupported('symbolic slice step')
    def clip(e, lo, hi):
        e = N_(e)
        if e.s == 'R': raise TypeError('slice indices must be integers')
        if e.k == 'K':
            if e.a < 0: e = t.add(n, e)
        elif not R.holds(t.le(ZERO, e)):
            if R.holds(t.lt(e, ZERO)): e = t.add(n, e)
            else: e = t.ite(t.lt(e, ZERO), t.add(n, e), e)
        if not R.holds(t.le(lo, e)): e = R.smax(e, lo)
        if not R.holds(t.le(e, hi)): e = R.smin(e, hi)
        return e
    if st > 0:
        a = ZERO if sl.start is None else clip(sl.start, ZERO, n)
        b = n if sl.stop is None else clip(sl.stop, ZERO, n)
        ln = t.sub(b, a)
    else:
        a = t.sub(n, ONE) if sl.start is None else clip(sl.start, K(-1), t.sub(n, ONE))
        b = K(-1) if sl.stop is None else clip(sl.stop, K(-1), t.sub(n, ONE))
        ln = t.sub(a, b)
    if abs(st) != 1:
        ln = t.neg(t.floor(t.scale(Fraction(-1, abs(st)), ln)))
    if not R.holds(t.le(ZERO, ln)): ln = R.smax(ln, ZERO)
    return a, K(st), ln

def expand_key(a, key):
    if not isinstance(key, tuple): key = (key,)
    key = list(key)
    ne = sum(1 for k in key if k is Ellipsis)
    if ne > 1: raise IndexError('an index can only have a single ellipsis')
    used = 0
    for k in key:
        if k is None or k is Ellipsis: continue
        if isboolarr(k): used += as_arr(k).ndim
        else: used += 1
    if used > a.ndim: raise IndexError('too many indices for array: array is %d-dimensional, but %d were indexed' % (a.ndim, used))
    fill = [slice(None)] * (a.ndim - used)
    if ne:
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key = key[:i] + fill + key[i + 1:]
    else: key = key + fill
    return key

def isboolarr(k):
    if isinstance(k, SArr): return k.kind == 'b'
    if isinstance(k, _np.ndarray): return k.dtype.kind == 'b'
    if isinstance(k, list) and k: return all(isinstance(x, (bool, _np.bool_)) for x in k)
    return False
def isadv(k):
    return isinstance(k, (SArr, _np.ndarray, list, SymSeq, range)) and not (isinstance(k, (SArr, _np.ndarray)) and k.ndim == 0)

def parse_key(a, key):
    """list of axis specs over view axes; advanced arrays broadcast together"""
    key = expand_key(a, key)
    spec = []; d = 0
    for k in key:
        if k is None: spec.append(('new',)); continue
        if isboolarr(k):
            m = as_arr(k)
            for j in range(m.ndim):
                if not R.truth(t.eq(m.shape_[j], a.shape_[d + j])):
                    raise IndexError('boolean index did not match indexed array')
            ix = nonzero(m)
            for x in ix: spec.append(('adv', x, d, True)); d += 1
            continue
        n = a.shape_[d]
        if isinstance(k, slice):
            spec.append(('sl',) + slice_bounds(k, n) + (d,)); d += 1
        elif isadv(k):
            x = as_arr(k)
            if x.kind == 'f' and not (x.shape_ and x.shape_[0] is ZERO): raise IndexError('arrays used as indices must be of integer (or boolean) type')
            spec.append(('adv', x, d, False)); d += 1
        else:
            if isinstance(k, (SArr, _np.ndarray)): k = k[()]
            if isinstance(k, (float, str)): raise IndexError('only integers, slices, ellipsis, None and integer arrays are valid indices')
            e = N_(k)
            if isinstance(e, C2) or e.s == 'R': raise IndexError('only integers are valid indices')
            spec.append(('int', norm_index(tonum(e), n), d)); d += 1
    return spec

def is_basic(spec): return all(s[0] != 'adv' for s in spec)

def basic_view(a, spec):
    shape = []; nd = a.ndim
    comp = [None] * nd; pos = 0; axes = []
    for s in spec:
        if s[0] == 'new': shape.append(ONE); axes.append(None); pos += 1
        elif s[0] == 'sl':
            _, st, step, ln, d = s
            comp[d] = ('s', st, step, pos, ln); shape.append(ln); axes.append(d); pos += 1
        else:
            comp[s[2]] = ('i', s[1])
    def mp(idx):
        return tuple(c[1] if c[0] == 'i' else (t.add(c[1], t.mul(c[2], idx[c[3]])) ) for c in comp)
    def inv(v):
        conds = []; out = [ZERO] * len(shape)
        for d, c in enumerate(comp):
            if c[0] == 'i': conds.append(t.eq(v[d], c[1]))
            else:
                _, st, step, p, ln = c
                if step is ONE:
                    i = t.sub(v[d], st)
                elif step is t.MONE: i = t.sub(st, v[d])
                else:
                    q = t.div(t.sub(v[d], st), step); i = t.floor(q)
                    conds.append(t.eq(q, i))
                # full axis needs no condition
                if not (st is ZERO and step is ONE and ln is a.shape_[d]) and not (step is t.MONE and ln is a.shape_[d]):
                    conds.append(t.le(ZERO, i)); conds.append(t.lt(i, ln))
                out[p] = i
        return t.and_(*conds), tuple(out)
    return view(a, tuple(shape), mp, inv)

def adv_layout(a, spec):
    """shape and index mapping of an advanced index (read)"""
    advs = [s for s in spec if s[0] == 'adv']
    bsh = bshape([s[1].shape_ for s in advs])
    # position of broadcast block
    kinds_ = [s[0] for s in spec]
    idxs = [i for i, k in enumerate(kinds_) if k in ('adv', 'int')]
    first = idxs[0]
    contiguous = all(kinds_[i] in ('adv', 'int') for i in range(idxs[0], idxs[-1] + 1))
    shape = []; pre = []
    blockpos = 0
    slots = []
    for i, s in enumerate(spec):
        if contiguous and i == first: slots.append(('B',))
        if s[0] == 'sl': slots.append(('S', s))
        elif s[0] == 'new': slots.append(('N',))
    if not contiguous: slots.insert(0, ('B',))
    pos = 0; smap = {}; bpos = None
    for sl in slots:
        if sl[0] == 'B':
            bpos = pos; shape.extend(bsh); pos += len(bsh)
        elif sl[0] == 'S':
            shape.append(sl[1][3]); smap[sl[1][4]] = (pos, sl[1]); pos += 1
        else: shape.append(ONE); pos += 1
    getters = {}
    for s in spec:
        if s[0] == 'adv':
            n = a.shape_[s[2]]; g = bget(s[1], bsh)
            getters[s[2]] = (g, n, s[3])
    ints = {s[2]: s[1] for s in spec if s[0] == 'int'}
    nb = len(bsh)
    def comp(idx):
        b = tuple(idx[bpos:bpos + nb]); out = []
        for d in range(a.ndim):
            if d in ints: out.append(ints[d])
            elif d in smap:
                p, s = smap[d]; out.append(t.add(s[1], t.mul(s[2], idx[p])))
            else:
                g, n, safe = getters[d]
                e = g(b)
                if not safe:
                    if e.k == 'K' and e.a < 0: e = t.add(n, e)
                    elif e.k == 'F' and e.a[0].startswith(('sel#', 'rank#')): pass     # in range for every index in range
                    elif e.k != 'K' and not R.holds(t.le(ZERO, e)):
                        e = t.ite(t.lt(e, ZERO), t.add(n, e), e)
                out.append(e)
        return tuple(out)
    return tuple(shape), comp, bsh, bpos, smap, getters, ints

def getitem(a, key):
    spec = parse_key(a, key)
    if is_basic(spec):
        v = basic_view(a, spec)
        if not v.shape_ and len(spec) and all(s[0] == 'int' for s in spec):
            return W(v.at(()))
        return v
    shape, comp, bsh, bpos, smap, getters, ints = adv_layout(a, spec)
    # bounds: at a generic index
    bi = tuple(t.fresh('b', 'I') for _ in bsh)
    rng = t.and_(*[t.and_(t.le(ZERO, i), t.lt(i, n)) for i, n in zip(bi, bsh)])
    for d, (g, n, safe) in getters.items():
        if safe: continue
        e = g(bi)
        gl = t.or_(t.not_(rng), t.and_(t.le(t.neg(n), e), t.lt(e, n)))
        if not R.holds(gl): R.oblige(gl, 'index array in bounds', 'safety')
    f = a.frozen()
    return new(shape, a.kind, lambda idx: f(comp(idx)))

def setitem(a, key, val):
    spec = parse_key(a, key)
    if is_basic(spec):
        v = basic_view(a, spec)
        store(v, val); return
    shape, comp, bsh, bpos, smap, getters, ints = adv_layout(a, spec)
    A = as_arr(val)
    sh2 = bshape((shape, A.shape_)) if A.shape_ else shape
    if len(sh2) != len(shape): raise ValueError('could not broadcast input array')
    g = bget(A, shape) if A.shape_ else (lambda f: (lambda idx: f(())))(A.frozen())
    # invert the advanced indices at buffer location v
    nb = len(bsh)
    bv = tuple(t.fresh('b', 'I') for _ in bsh)
    eqs = [(d, getters[d][0](bv)) for d in getters]
    kd = a.kind
    def inv(v):
        """(cond, idx) for view location v"""
        sol = {}; conds = []
        pend = [(e, v[d]) for d, e in eqs]
        dim_of = {id(x): d for (_, x), (d, _) in zip(pend, eqs)}
        ranked = {}
        # selections from a mask: rank of the location
        while True:
            heads = {(e.a[0].split('#')[1], e.a[1]) for e, _ in pend if e.k == 'F' and e.a[0].startswith('sel#')}
            if not heads: break
            mid, args = min(heads, key=lambda h: (int(h[0]), str(h[1])))
            m = MASKS[int(mid)]
            mine = [p for p in pend if p[0].k == 'F' and p[0].a[0].startswith('sel#%s#' % mid) and p[0].a[1] == args]
            order = sorted(mine, key=lambda x: int(x[0].a[0].split('#')[2]))
            if [int(x[0].a[0].split('#')[2]) for x in order] != list(range(m.nd)): raise Unsupported('partial mask write')
            loc = tuple(x[1] for x in order)
            ex, arg = args[:-1], args[-1]
            conds.append(m.at(ex, loc))
            for l, n_, (_, x) in zip(loc, m.dims(ex), order):
                # every location of the array is within its shape
                if x is v[dim_of.get(id(x), -1)] and n_ is a.shape_[dim_of[id(x)]]: continue
                conds.append(t.le(ZERO, l)); conds.append(t.lt(l, n_))
            rk = t.app('rank#%d' % m.id, tuple(ex) + loc, 'I')
            ranked[rk] = t.app('count#%d' % m.id, ex, 'I')
            pend = [p for p in pend if p not in mine] + [(arg, rk)]
        changed = True
        while pend and changed:
            changed = False
            for it in list(pend):
                e, x = it
                e2 = t.subst(e, sol)
                fr = [b for b in bv if b in t.fv(e2)]
                if not fr:
                    conds.append(t.eq(e2, x)); pend.remove(it); changed = True
                elif len(fr) == 1:
                    s = P.solve(t.sub(e2, x), fr[0])
                    if s is not None:
                        conds.append(P.isint(s)); 
                        sol[fr[0]] = t.floor(s) if s.s != 'I' else s
                        pend.remove(it); changed = True
        if pend: return _tab_inv(v)
        out = []
        for b, n in zip(bv, bsh):
            if b not in sol:
                if n is ONE: sol[b] = ZERO
                else: raise Unsupported('scatter with repeated indices')
            if ranked.get(sol[b]) is not n:
                conds.append(t.le(ZERO, sol[b])); conds.append(t.lt(sol[b], n))
            out.append(sol[b])
        return t.and_(*conds), tuple(out)
    def _tab_inv(v):
        raise Unsupported('scatter through a non-affine index array')
    # small constant index arrays: sequential writes
    if all(n.k == 'K' for n in bsh) and not any(getters[d][2] for d in getters):
        tot = 1
        for n in bsh: tot *= int(n.a)
        try:
            inv(tuple(t.fresh('v', 'I') for _ in a.shape_))
            affine = True
        except Unsupported: affine = False
        if not affine and tot <= 60:
            for bidx in _np.ndindex(*[int(n.a) for n in bsh]):
                bn = tuple(K(i) for i in bidx)
                k2 = []
                for d in range(a.ndim):
                    if d in ints: k2.append(W(ints[d]))
                    elif d in smap:
                        k2.append(slice(None)) 
                        s = smap[d][1]
                        if not (s[1] is ZERO and s[2] is ONE and s[3] is a.shape_[d]): raise Unsupported('mixed scatter')
                    else: k2.append(W(getters[d][0](bn)))
                gg = g
                rest = [p for p in range(len(shape)) if not (bpos <= p < bpos + nb)]
                sub = new(tuple(shape[p] for p in rest), A.kind,
                          (lambda bn: lambda idx: gg(_ins(idx, bn, bpos)))(bn))
                setitem(a, tuple(k2), sub if rest else W(sub.at(())))
            return
    old = a.buf.snapshot(); base = a
    def full(b):
        if base.map is None: c1, v = TRUE, b
        else:
            if base.inv is None: raise Unsupported('write through a non-invertible view')
            c1, v = base.inv(b)
        c2, bi = inv(v)
        conds = [c1, c2]; idx = [None] * len(shape)
        for i, x in enumerate(bi): idx[bpos + i] = x
        for d in range(base.ndim):
            if d in ints: conds.append(t.eq(v[d], ints[d]))
            elif d in smap:
                p, s = smap[d]
                if s[2] is ONE: i = t.sub(v[d], s[1])
                elif s[2] is t.MONE: i = t.sub(s[1], v[d])
                else:
                    q = t.div(t.sub(v[d], s[1]), s[2]); i = t.floor(q); conds.append(t.eq(q, i))
                conds.append(t.le(ZERO, i)); conds.append(t.lt(i, s[3])); idx[p] = i
        idx = [ZERO if i is None else i for i in idx]
        return t.and_(*conds), tuple(idx)
    full(tuple(t.fresh('v', 'I') for _ in a.buf.shape))
    def fn(b):
        c, idx = full(b)
        if c is FALSE: return old(b)
        return ite_v(c, cast_n(g(idx), kd), old(b))
    a.buf.set(fn)

def _ins(idx, bn, p):
    return tuple(idx[:p]) + tuple(bn) + tuple(idx[p:])

def store(v, val):
    """write val into the whole view v"""
    A = as_arr(val)
    sh = v.shape_
    if len(A.shape_) > len(sh):
        ex = len(A.shape_) - len(sh)
        if all(d is ONE for d in A.shape_[:ex]): A = getitem(A, (0,) * ex) if ex < A.ndim else as_arr(A[(0,) * ex])
        else: raise ValueError('could not broadcast input array into shape')
    off = len(sh) - len(A.shape_)
    for i, d in enumerate(A.shape_):
        if d is ONE: continue
        if not R.truth(t.eq(d, sh[i + off])):
            if R.truth(t.eq(d, ONE)):
                A = SArr(A.buf, A.shape_[:i] + (ONE,) + A.shape_[i + 1:], A.map, A.inv); continue
            raise ValueError('could not broadcast input array from shape %s into shape %s' % (A.shape_, sh))
    g = bget(A, sh)
    kd = v.buf.kind
    if A.kind == 'c' and kd != 'c': R.note('complex values cast to real on store')
    old = v.buf.snapshot()
    if v.map is None:
        v.buf.set(lambda b: cast_n(g(b), kd)); return
    if v.inv is None: raise Unsupported('write through a non-invertible view')
    inv = v.inv
    def fn(b):
        c, idx = inv(b)
        if c is FALSE: return old(b)
        x = cast_n(g(idx), kd)
        return ite_v(c, x, old(b))
    v.buf.set(fn)

# ---- boolean selections -----------------------------------------------------------------
class Mask:
    def __init__(self, id_, cv, ex, body, shape):
        self.id = id_; self.cv = cv; self.ex = self.hold = ex; self.body = body; self.nd = len(cv); self.shape = shape
    def at(self, ex, loc):
        m = dict(zip(self.cv, loc)); m.update(zip(self.ex, ex))
        return t.subst(self.body, m)
    def dims(self, ex):
        return tuple(t.subst(d, dict(zip(self.ex, ex))) for d in self.shape)
MASKS = []
_maskid = {}

def mask_of(m):
    """register the mask by its content"""
    m = as_arr(m)
    if m.kind != 'b': 
        g0 = m.frozen(); m = new(m.shape_, 'b', lambda idx: t.ne(tonum(g0(idx)), ZERO) if not isinstance(g0(idx), C2) else None)
    cv = tuple(t.var('%%i%d' % d, 'I') for d in range(m.ndim))
    body = m.at(cv)
    # parameters: the fresh variables in the order of their occurrence, so that the selection is the same for every index
    lv = R.loopvars()
    fvs = frozenset().union(t.fv(body), *[t.fv(d) for d in m.shape_]) - frozenset(cv)
    ps = {v for v in fvs if v in lv or v.s == 'I' and '!' in v.a}
    ex = tuple(first_vars((body,) + tuple(m.shape_), ps)) if ps else ()
    hold = tuple(t.var('%%e%d' % j, v.s) for j, v in enumerate(ex))
    d = dict(zip(ex, hold))
    body, shape = (t.subst(body, d), tuple(t.subst(x, d) for x in m.shape_)) if ex else (body, m.shape_)
    key = (body, shape)
    if key in _maskid: return _maskid[key], ex
    # the same selection written differently (only here: it is shown under the present assumptions)
    for o in MASKS[-12:]:
        if o.nd != m.ndim or len(o.hold) != len(ex) or o.shape != shape: continue
        q = [t.and_(t.le(ZERO, c), t.lt(c, n)) for c, n in zip(cv, m.shape_)]
        a, b = m.at(cv), o.at(ex, cv)
        if R.prove_now(t.and_(*q), a, b): return o, ex
    mk = Mask(len(MASKS), cv, hold, body, shape)
    MASKS.append(mk); _maskid[key] = mk
    return mk, ex

def first_vars(ns, ps):
    out = []; seen = set()
    def go(n):
        if n in seen or not (t.fv(n) & ps): return
        seen.add(n)
        if n.k == 'V': out.append(n); return
        for x in (n.a[1:] if n.k == 'S' else t.kids(n)): go(x)
    for n in ns: go(n)
    return out

def nonzero(m):
    m = as_arr(m)
    sh = m.shape_
    # fully concrete masks
    if all(d.k == 'K' for d in sh) and _np.prod([int(d.a) for d in sh]) <= 400:
        vals = []
        conc = True
        for idx in _np.ndindex(*[int(d.a) for d in sh]):
            v = m.at(tuple(K(i) for i in idx))
            if v.s != 'B': v = t.ne(v, ZERO)
            if v is TRUE: vals.append(idx)
            elif v is not FALSE: conc = False; break
        if conc:
            arr = _np.array(vals, dtype=int).reshape(len(vals), len(sh))
            return tuple(lift(arr[:, j].copy()) for j in range(len(sh)))
    mk, ex = mask_of(m)
    n = t.app('count#%d' % mk.id, ex, 'I')
    R.fact(t.le(ZERO, n))
    return tuple(new((n,), 'i', (lambda d: lambda idx: selapp(mk, d, ex, idx[0]))(d)) for d in range(len(sh)))

def selapp(mk, d, ex, i):
    if i.k == 'F' and i.a[0] == 'rank#%d' % mk.id and i.a[1][:len(ex)] == tuple(ex):
        return i.a[1][len(ex) + d]
    return t.app('sel#%d#%d' % (mk.id, d), tuple(ex) + (i,), 'I')

_old_reapp = t.reapp
def _reapp(name, args, s):
    if name.startswith('sel#'):
        _, a, b = name.split('#'); mk = MASKS[int(a)]
        return selapp(mk, int(b), args[:-1], args[-1])
    return _old_reapp(name, args, s)
t.reapp = _reapp

def sel_facts(n, acc=None):
    """instances of the selection axioms for the terms in n"""
    out = []
    for x in t.apps(n):
        nm = x.a[0]
        if nm.startswith('sel#'):
            mk = MASKS[int(nm.split('#')[1])]
            ex, i = x.a[1][:-1], x.a[1][-1]
            loc = tuple(selapp(mk, d, ex, i) for d in range(mk.nd))
            cnt = t.app('count#%d' % mk.id, ex, 'I')
            rng = t.and_(t.le(ZERO, i), t.lt(i, cnt))
            dm = mk.dims(ex)
            body = [mk.at(ex, loc)] + [t.and_(t.le(ZERO, l), t.lt(l, n_)) for l, n_ in zip(loc, dm)]
            out.append(t.implies(rng, t.and_(*body)))
        elif nm.startswith('rank#'):
            mk = MASKS[int(nm.split('#')[1])]
            ne = len(mk.ex); ex, loc = x.a[1][:ne], x.a[1][ne:]
            cnt = t.app('count#%d' % mk.id, ex, 'I')
            dm = mk.dims(ex)
            pre = [mk.at(ex, loc)] + [t.and_(t.le(ZERO, l), t.lt(l, n_)) for l, n_ in zip(loc, dm)]
            out.append(t.implies(t.and_(*pre), t.and_(t.le(ZERO, x), t.lt(x, cnt))))
        elif nm.startswith('count#'):
            out.append(t.le(ZERO, x))
        elif nm == 'sqrt':
            out.append(t.le(ZERO, x))
            out.append(t.implies(t.lt(ZERO, x.a[1][0]), t.lt(ZERO, x)))
        elif nm in ('sin', 'cos', 'tanh'):
            out.append(t.and_(t.le(K(-1), x), t.le(x, ONE)))
        elif nm == 'exp': out.append(t.lt(ZERO, x))
        elif nm in EXT:
            out.extend(EXT[nm](x))
    return out
EXT = {}      # function name -> facts about one application
FACTPFX = ('sel#', 'rank#', 'count#', 'ext#', 'in_', 'sqrt', 'sin', 'cos', 'tanh', 'exp')

def all_facts(ns, rounds=2):
    """instances of the declared facts for every application in the terms ns"""
    out = []; seen = set(); todo = list(ns)
    for _ in range(rounds):
        new_ = []
        for n in todo:
            if not any(s.startswith(FACTPFX) for s in t.syms(n)): continue
            if any(s == '#S' for s in t.syms(n)):
                fs = [f for f in sel_facts(n) if not (t.fv(f) - BOUNDOK(n))]
            else: fs = sel_facts(n)
            for f in fs:
                if f not in seen and f is not TRUE: seen.add(f); new_.append(f)
        out += new_; todo = new_
        if not new_: break
    return out
def BOUNDOK(n): return t.fv(n)

# =============================================================================== runtime
UNB = type('Unbound', (), {'__repr__': lambda s: '<unbound>'})()

class Poison:
    """a value that depends on the last iteration of a loop and could not be expressed"""
    def __init__(self, why): self.__dict__['why'] = why
    def __getattr__(self, k): raise Unsupported('use of ' + self.why)
    def _u(self, *a, **k): raise Unsupported('use of ' + self.why)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _u
    __getitem__ = __setitem__ = __call__ = __len__ = __iter__ = __bool__ = __index__ = __pow__ = _u
    __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __float__ = __int__ = __abs__ = _u
    __array_ufunc__ = None
    def __eq__(self, o): raise Unsupported('use of ' + self.why)
    __hash__ = None

class SymSeq:
    """a python-level sequence of symbolic length"""
    def __init__(self, n, item): self.n = n; self.item = item
    def arr(self):
        it = self.item; n = self.n
        v = it(t.fresh('q', 'I'))
        if isinstance(v, (SArr, list, tuple, _np.ndarray)):
            a0 = as_arr(v)
            def fn(idx):
                return as_arr(it(idx[0])).at(idx[1:])
            return new((n,) + a0.shape_, a0.kind, fn)
        v = N_(v)
        return new((n,), kindof(v), lambda idx: N_(it(idx[0])))
    def __len__(self):
        c = R.concrete(self.n)
        if c is None: raise Unsupported('native len of symbolic sequence')
        return c
    def __getitem__(self, i):
        if isinstance(i, slice): return self.arr()[i]
        return self.item(norm_index(N_(i), self.n))
    def __iter__(self):
        c = R.concrete(self.n)
        if c is None: raise Unsupported('native iteration over symbolic sequence')
        return (self.item(K(i)) for i in range(c))
    def __contains__(self, v): raise Unsupported('in symbolic sequence')

class SymRange(SymSeq):
    def __init__(self, lo, hi, step):
        self.lo, self.step = lo, step
        if step is ONE: n = t.sub(hi, lo)
        elif step is t.MONE: n = t.sub(lo, hi)
        elif step.k == 'K':
            q = step.a
            n = t.neg(t.floor(t.scale(Fraction(-1) / q, t.sub(hi, lo))))
        else: raise Unsupported('range with symbolic step')
        if not R.holds(t.le(ZERO, n)): n = R.smax(n, ZERO)
        SymSeq.__init__(self, n, lambda k: W(t.add(lo, t.mul(step, k))))

class SymMA: pass

class Fork(BaseException): pass

class Runtime:
    def __init__(self):
        self.np = None
        self.reset([])
    def reset(self, prefix):
        self.base = []          # assumptions of the contract
        self.hints = []
        self.dec = []           # decisions taken (terms)
        self.prefix = prefix    # list of booleans
        self.ndec = 0
        self.pending = []
        self.scope = []         # scoped conditions (branches, loop ranges)
        self.frames = []
        self.obl = []
        self.notes = set()
        self.active = True
        self.objser = {}
        self.fork_sites = getattr(self, 'fork_sites', set())
        self.depth = 0
        self.deadline = getattr(self, 'deadline', None)
    def known(self): return tuple(self.base) + tuple(self.dec)
    def path(self):
        return tuple(self.base) + tuple(self.dec) + tuple(self.scope)
    def facts_for(self, n):
        if any(s.startswith(FACTPFX) for s in t.syms(n)):
            return tuple(sel_facts(n))
        return ()
    def holds(self, g):
        if g is TRUE: return True
        if g is FALSE and not self.scope: return False
        return P.holds(self.path() + self.facts_for(g), g, 600)
    def prove_now(self, q, a, b):
        """whether a and b are equivalent under q and the present assumptions"""
        mark = len(self.scope); self.scope.append(q)
        try: return self.holds(t.implies(a, b)) and self.holds(t.implies(b, a))
        finally: del self.scope[mark:]
    def fact(self, g): 
        if g is not TRUE and g not in self.base: self.base.append(g)
    def note(self, s): self.notes.add(s)
    def smin(self, a, b):
        if self.holds(t.le(a, b)): return a
        if self.holds(t.le(b, a)): return b
        return t.minn(a, b)
    def smax(self, a, b):
        if self.holds(t.le(b, a)): return a
        if self.holds(t.le(a, b)): return b
        return t.maxn(a, b)
    def concrete(self, n):
        """the integer value of n on this path, or None"""
        if n.k == 'K': return int(n.a) if n.a.denominator == 1 else None
        return None
    def loopvars(self):
        return {f.k for f in self.frames if isinstance(f, Loop)}
    def truth(self, c):
        if c is TRUE: return True
        if c is FALSE: return False
        return self.decide(c)
    def decide(self, c):
        if self.deadline and __import__('time').time() > self.deadline: raise Unsupported('time budget')
        if c is TRUE: return True
        if c is FALSE: return False
        if self.holds(c): return True
        if self.holds(t.not_(c)): return False
        lv = self.loopvars()
        if (t.fv(c) & lv) or any(s.startswith('U#') for s in t.syms(c)):
            raise Unsupported('branch on a loop-dependent condition outside a mergeable if: %s' % c)
        i = self.ndec; self.ndec += 1
        if i < len(self.prefix): v = self.prefix[i]
        else:
            v = True
            self.pending.append(self.prefix[:] + [d for d in self._tail()] + [False])
            self.tail.append(True)
        self.dec.append(c if v else t.not_(c))
        if self.ndec > 60: raise Unsupported('too many forks')
        return v
    tail = []
    _ser = 0
    def tick(self):
        Runtime._ser += 1
        return Runtime._ser
    def _tail(self): return self.tail
    def oblige(self, g, label, kind='post'):
        self.obl.append((self.path(), g, label, kind))
    def assume_after(self, g):
        # the obligation is checked separately; continue under it
        (self.scope if self.frames else self.base).append(g)
    # ---- heap log
    def logwrite(self, buf):
        for f in self.frames:
            f.log(buf)
    def logattr(self, obj, name):
        for f in self.frames: f.logattr(obj, name)

R = Runtime()

MISSING = type('Missing', (), {})()
class Frame:
    def __init__(self):
        self.old = {}      # id(buf) -> (buf, fn, memo)
        self.attrs = {}    # (id(obj), name) -> (obj, name, old)
        self.mark = len(R.scope)
    def log(self, buf):
        if id(buf) not in self.old: self.old[id(buf)] = (buf, buf.fn, buf.memo)
    def logattr(self, obj, name):
        if (id(obj), name) not in self.attrs:
            self.attrs[(id(obj), name)] = (obj, name, obj.__dict__.get(name, MISSING))
    def rollback(self):
        """undo and return the current state"""
        cur = {}
        for i, (b, fn, memo) in self.old.items():
            cur[i] = (b, b.fn, b.memo); b.fn, b.memo = fn, memo
        ca = {}
        for key, (o, nm, old) in self.attrs.items():
            ca[key] = (o, nm, o.__dict__.get(nm, MISSING))
            if old is MISSING: o.__dict__.pop(nm, None)
            else: o.__dict__[nm] = old
        return cur, ca

def setattr_(obj, name, v):
    if R.active and hasattr(obj, '__dict__') and not obj.__dict__:
        R.objser[id(obj)] = (obj, R.tick())
    if R.active and R.frames and hasattr(obj, '__dict__') and not isinstance(getattr(type(obj), name, None), property):
        R.logattr(obj, name)
    setattr(obj, name, v)

def mutated(obj):
    """called before native list/dict mutation"""
    if R.frames and isinstance(obj, (list, dict, set)):
        raise Unsupported('mutation of a native container inside a symbolic branch or loop')
    return obj

class MergeFail(Unsupported):
    def __init__(self, site, why): Unsupported.__init__(self, 'merge: ' + why); self.site = site

def merge_val(c, a, b, site=None, own=False):
    if a is b: return a
    if a is UNB or b is UNB:
        return a if b is UNB else b     # definedness is not modelled
    if isinstance(a, Poison): return a
    if isinstance(b, Poison): return b
    if isnum(a) and isnum(b):
        return W(ite_v(c, N_(a), N_(b))) if not (isinstance(a, C2) or isinstance(b, C2)) else ite_v(c, N_(a), N_(b))
    if isinstance(a, (SArr, _np.ndarray)) or isinstance(b, (SArr, _np.ndarray)):
        if (isinstance(a, (SArr, _np.ndarray)) and isinstance(b, (SArr, _np.ndarray))):
            A, B = as_arr(a), as_arr(b)
            if A.ndim == B.ndim and all(R.holds(t.eq(p, q)) for p, q in zip(A.shape_, B.shape_)):
                fa, fb = A.frozen(), B.frozen(); kd = promote({A.kind, B.kind})
                r = new(A.shape_, kd, lambda idx: ite_v(c, cast_n(fa(idx), kd), cast_n(fb(idx), kd)))
                if not own: r.buf.ro = 'branch merge'
                return r
        for x, y in ((a, b), (b, a)):
            if type(x) in (list, tuple) and isinstance(y, (SArr, _np.ndarray)) and x and all(isnum(e) and not isinstance(e, C2) for e in x):
                R.note('a list of numbers and an array, assigned in different branches, are taken as arrays')
                return merge_val(c, as_arr(a), as_arr(b), site, own)
        raise MergeFail(site, 'arrays of different shape')
    if type(a) is type(b) and isinstance(a, (str, bytes, type(None))) and a == b: return a
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b) and type(a) in (tuple, list):
        return type(a)(merge_val(c, x, y, site) for x, y in zip(a, b))
    raise MergeFail(site, 'values of type %s / %s' % (type(a).__name__, type(b).__name__))

class If(Frame):
    """if statement with a possibly symbolic condition"""
    def __init__(self, test, site, forkable):
        Frame.__init__(self)
        self.n = 0; self.site = site; self.saved = None; self.serial = R.tick()
        c = test
        if isinstance(c, SArr): c = bool(c)
        if isinstance(c, S):
            n = c.n if c.n.s == 'B' else t.ne(c.n, ZERO)
            if n.k == 'K' or R.holds(n): self.c = True if n.k != 'K' else n.a
            elif R.holds(t.not_(n)): self.c = False
            elif site in R.fork_sites and not (t.fv(n) & R.loopvars()): self.c = bool(S(n))
            elif forkable: self.c = bool(S(n))
            else: self.c = n
        else: self.c = bool(c)
        self.conc = self.c is True or self.c is False
    def more(self):
        self.n += 1
        if self.conc: return self.n == 1
        if self.n == 1:
            R.frames.append(self); R.scope.append(self.c); self.branch = True
            return True
        if self.n == 2:
            self.branch = False
            return True
        return False
    def take(self):
        return self.c if self.conc else self.branch
    def start(self, vals):
        """values of the assigned variables at the start of this branch"""
        if self.conc: return vals
        if self.n == 1: self.v0 = vals; return vals
        return self.v0
    def end(self, vals):
        if self.conc: self.vals = vals; return
        if self.n == 1:
            self.v1 = vals
            del R.scope[self.mark:]
            self.cur1 = self.rollback()
            R.scope.append(t.not_(self.c))
            self.k1, self.a1 = dict(self.old), dict(self.attrs)
        else:
            self.v2 = vals
            del R.scope[self.mark:]
            cur2, at2 = self.rollback()
            R.frames.remove(self)
            cur1, at1 = self.cur1
            c = self.c
            for i in self.old:
                b = self.old[i][0]
                f1 = cur1[i][1:] if i in cur1 else (b.fn, b.memo)
                f2 = cur2[i][1:] if i in cur2 else (b.fn, b.memo)
                g1, g2 = _rd(*f1), _rd(*f2)
                b.set((lambda g1, g2: lambda idx: ite_v(c, g1(idx), g2(idx)))(g1, g2))
            for key in self.attrs:
                o, nm, old = self.attrs[key]
                v1 = at1[key][2] if key in at1 else old
                v2 = at2[key][2] if key in at2 else old
                if v1 is MISSING or v2 is MISSING:
                    if v1 is v2: continue
                    raise MergeFail(self.site, 'attribute defined in one branch')
                setattr_(o, nm, merge_val(c, v1, v2, self.site))
            self.vals = tuple(merge_val(c, x, y, self.site, self.owned(x, self.v1, at1) and self.owned(y, self.v2, at2)) for x, y in zip(self.v1, self.v2))
    def owned(self, x, vals, attrs):
        """an array made in the branch and only known by one name"""
        if type(x) in (list, tuple): return all(isnum(e) for e in x)
        if not isinstance(x, SArr): return False
        if x.map is not None or x.buf.serial <= self.serial or attrs: return False
        n = 0
        for y in vals:
            for z in (y if type(y) in (list, tuple) else y.values() if type(y) is dict else (y,)):
                if isinstance(z, SArr) and z.buf is x.buf: n += 1
        return n == 1
    def result(self): return self.vals

def _rd(fn, memo):
    def g(idx):
        r = cell(memo, fn, idx)
        return r
    return g

# ---- loops ------------------------------------------------------------------------------
_uid = iter(range(10**9))
class Loop(Frame):
    def __init__(self, it, site):
        Frame.__init__(self)
        self.site = site; self.p = 0; self.done = False
        self.k = t.fresh('k', 'I')
        seq = as_seq(it)
        if isinstance(seq, SymSeq):
            c = R.concrete(seq.n)
            self.conc = False
            if c is not None: self.conc = True; self.it = iter([seq.item(K(i)) for i in range(c)])
            else: self.n = seq.n; self.item_ = seq.item
        else:
            self.conc = True; self.it = seq
        self.bufs = {}; self.vars = set(); self.at = {}
        self.opened = False
    def more(self):
        if self.opened: raise Unsupported('break/continue in a symbolic loop')
        if self.done: return False
        self.p += 1
        if self.p > 6: raise Unsupported('loop summary does not stabilise')
        self.opened = True
        self.old = {}; self.attrs = {}
        self.serial = R.tick()
        return True
    def enter(self, vals):
        R.frames.append(self)
        self.mark = len(R.scope)
        R.scope.append(t.le(ZERO, self.k)); R.scope.append(t.lt(self.k, self.n))
        if self.p == 1: self.v0 = vals
        vals = list(self.v0)
        self.U = {}
        for i, b in self.bufs.items():
            self.log(b); u = 'U#%d' % next(_uid); self.U[u] = ('buf', i)
            kd = b.kind
            if kd == 'c':
                b.fn = (lambda u, k: lambda idx: C2(t.app(u + 'r', (k,) + idx, 'R'), t.app(u + 'i', (k,) + idx, 'R')))(u, self.k)
            else:
                srt = {'f': 'R', 'i': 'I', 'b': 'B'}[kd]
                b.fn = (lambda u, k, srt: lambda idx: t.app(u, (k,) + idx, srt))(u, self.k, srt)
            b.memo = {}
        for j in self.vars:
            v = self.v0[j]
            if isnum(v) and not isinstance(v, C2):
                u = 'U#%d' % next(_uid); self.U[u] = ('var', j)
                srt = self.vsort.get(j) or N_(v).s
                vals[j] = S(t.app(u, (self.k,), srt))
            elif isinstance(v, SArr) and j in self.vshape and self.vshape[j] is not None:
                # rebinding of an array variable with an invariant shape
                u = 'U#%d' % next(_uid); self.U[u] = ('arr', j)
                srt = {'f': 'R', 'i': 'I', 'b': 'B'}.get(self.vshape[j])
                if srt is None: vals[j] = Poison('complex carried array')
                else:
                    r = new(v.shape_, self.vshape[j], (lambda u, k, srt: lambda idx: t.app(u, (k,) + idx, srt))(u, self.k, srt))
                    r.buf.ro = 'loop-carried array'
                    vals[j] = r
            else: vals[j] = Poison('loop-carried value') if v is not UNB else UNB
        for key, (o, nm, old) in self.at.items():
            self.logattr(o, nm)
            if isnum(old) and not isinstance(old, C2):
                u = 'U#%d' % next(_uid); self.U[u] = ('attr', key)
                o.__dict__[nm] = S(t.app(u, (self.k,), N_(old).s))
            else: o.__dict__[nm] = Poison('loop-carried attribute ' + nm)
        self.vin = tuple(vals)
        return self.vin
    def item(self): return self.item_(self.k)
    vsort = {}; vshape = {}
    def leave(self, vals):
        self.opened = False
        R.frames.remove(self)
        scope_here = R.scope[self.mark:]
        del R.scope[self.mark:]
        cur, cat = self.rollback()
        grow = False
        pre_existing = {i for i in self.old}
        for i, (b, fn, memo) in self.old.items():
            if i not in self.bufs:
                if cur[i][1] is fn: continue
                if b.serial > self.serial: continue
                self.bufs[i] = b; grow = True
        for key in self.attrs:
            if key not in self.at:
                ser = R.objser.get(key[0])
                if ser is not None and ser[1] > self.serial: continue
                self.at[key] = self.attrs[key]; grow = True
        for j, (a, b) in enumerate(zip(self.vin, vals)):
            if a is b: continue
            if isnum(a) and isnum(b) and not isinstance(a, C2) and not isinstance(b, C2) and N_(a) is N_(b): continue
            if j not in self.vars:
                self.vars.add(j); grow = True
                v = self.v0[j]
            v = self.v0[j]
            if isnum(v) and isnum(b) and not isinstance(b, C2) and not isinstance(v, C2):
                s = 'R' if 'R' in (N_(v).s, N_(b).s, self.vsort.get(j)) else N_(b).s
                if self.vsort.get(j, N_(v).s) != s:
                    self.vsort = dict(self.vsort); self.vsort[j] = s; grow = True
            elif isinstance(v, SArr):
                kd = None
                if isinstance(b, SArr) and b.ndim == v.ndim and b.kind in 'fib' and all(R.holds(t.eq(p, q)) for p, q in zip(v.shape_, b.shape_)):
                    kd = promote({v.kind, b.kind})
                if self.vshape.get(j, 0) != kd:
                    self.vshape = dict(self.vshape); self.vshape[j] = kd; grow = True
        if grow and self.p < 6:
            return
        self.done = True
        self.resolve(vals, cur, cat)
    # -- summary
    def resolve(self, vals, cur, cat):
        k, n = self.k, self.n
        R.scope.append(t.le(ZERO, k)); R.scope.append(t.lt(k, n)); sc = len(R.scope) - 2
        try:
            self._resolve(vals, cur, cat)
        finally:
            del R.scope[sc:sc + 2]
    def _resolve(self, vals, cur, cat):
        k, n = self.k, self.n
        sca = {}     # u -> (init, post)
        arrs = {}    # u -> (init fn, ivars, post template, kind)
        inv = {}
        for u, (ty, key) in self.U.items(): inv[(ty, key)] = u
        out = list(self.v0)
        post = {}
        for i, b in self.bufs.items():
            u = inv[('buf', i)]
            ci = _rd(cur[i][1], cur[i][2]); c0 = _rd(self.old[i][1], self.old[i][2])
            iv = tuple(t.fresh('i', 'I') for _ in b.shape)
            rng = [t.and_(t.le(ZERO, x), t.lt(x, d)) for x, d in zip(iv, b.shape)]
            mark = len(R.scope); R.scope.extend(rng)
            p = ci(iv)
            del R.scope[mark:]
            if b.kind == 'c':
                arrs[u + 'r'] = ((lambda c0: lambda idx: c0(idx).re)(c0), iv, p.re, 'f', rng)
                arrs[u + 'i'] = ((lambda c0: lambda idx: c0(idx).im)(c0), iv, p.im, 'f', rng)
            else: arrs[u] = (c0, iv, p, b.kind, rng)
        for j in self.vars:
            a, b = self.v0[j], vals[j]
            u = inv.get(('var', j))
            if u is not None:
                if not isnum(b) or isinstance(b, C2): out[j] = Poison('loop variable'); sca[u] = None; continue
                sca[u] = (N_(a), N_(b))
            elif ('arr', j) in inv:
                u = inv[('arr', j)]
                if not isinstance(b, SArr): out[j] = Poison('loop variable'); arrs[u] = None; continue
                iv = tuple(t.fresh('i', 'I') for _ in b.shape_)
                rng = [t.and_(t.le(ZERO, x), t.lt(x, d)) for x, d in zip(iv, a.shape_)]
                arrs[u] = (a.frozen(), iv, cast_n(b.at(iv), self.vshape[j]), self.vshape[j], rng)
            else: out[j] = None
        for key in self.at:
            u = inv.get(('attr', key))
            if u is not None:
                v = cat[key][2]
                sca[u] = (N_(self.attrs[key][2]), N_(v)) if isnum(v) else None
        sub = {}     # u -> function(args)->term for the value before iteration args[0]
        fin = {}     # u -> final value (scalar term) or function(idx)
        names = set(sca) | set(arrs)
        ctx = Summ(self, k, n, sub, names)
        # scalars
        todo = {u: v for u, v in sca.items() if v is not None}
        prog = True
        while todo and prog:
            prog = False
            for u, (init, po) in list(todo.items()):
                po = ctx.apply(po)
                r = ctx.scalar(u, init, po)
                if r is not None:
                    sub[u], fin[u] = r; del todo[u]; prog = True
                else: todo[u] = (init, po)
            if not prog and todo and any(a is not None for a in arrs.values()) and not getattr(ctx, 'tried', False):
                break
        todoA = {u: v for u, v in arrs.items() if v is not None}
        prog = True
        while todoA and prog:
            prog = False
            for u, (c0, iv, po, kd, rng) in list(todoA.items()):
                po = ctx.apply(po)
                r = ctx.array(u, c0, iv, po, kd, rng, {x: todoA[x] for x in todoA})
                if r is not None:
                    sub[u], fin[u] = r; del todoA[u]; prog = True
                    for u2, (init, po2) in list(todo.items()):
                        po2 = ctx.apply(po2)
                        r2 = ctx.scalar(u2, init, po2)
                        if r2 is not None: sub[u2], fin[u2] = r2; del todo[u2]
                        else: todo[u2] = (init, po2)
                else: todoA[u] = (c0, iv, po, kd, rng)
        if todo:
            for u in list(todo):
                init, po = todo[u]
                r = ctx.scalar(u, init, ctx.apply(po), force=True)
                if r is None: raise Unsupported('loop-carried scalar')
                sub[u], fin[u] = r
        if todoA and os.environ.get('DV_PO'):
            for u, v in todoA.items(): print(u, v[3], str(v[2])[:1500])
        if todoA: raise Unsupported('loop-carried array (%s)' % self.site)
        # write results back
        for i, b in self.bufs.items():
            u = inv[('buf', i)]
            if b.kind == 'c':
                fr, fi = fin[u + 'r'], fin[u + 'i']
                b.set((lambda fr, fi: lambda idx: C2(fr(idx), fi(idx)))(fr, fi))
            else: b.set(fin[u])
        for key, (o, nm, old) in self.at.items():
            u = inv.get(('attr', key))
            if u is not None and u in fin: setattr_(o, nm, W(fin[u]))
            else:
                v = cat[key][2]
                setattr_(o, nm, self.last(old, v, ctx, Poison('attribute %s set in a loop' % nm)))
        for j in self.vars:
            u = inv.get(('var', j))
            if u is not None:
                if u in fin: out[j] = W(fin[u])
            elif ('arr', j) in inv:
                u = inv[('arr', j)]
                if u in fin:
                    out[j] = new(self.v0[j].shape_, self.vshape[j], fin[u])
            else:
                out[j] = self.last(self.v0[j], vals[j], ctx, Poison('loop-local variable after the loop'))
        self.out = tuple(out)
    def last(self, init, v, ctx, poison):
        """value after the loop of something assigned in every iteration"""
        k, n = self.k, self.n
        if not (init is UNB or init is MISSING) and not R.holds(t.lt(ZERO, n)):
            return poison
        lastk = t.sub(n, ONE)
        try:
            if isnum(v):
                x = N_(v)
                if isinstance(x, C2): return C2(*[t.subst(ctx.apply(y), {k: lastk}) for y in (x.re, x.im)])
                return W(t.subst(ctx.apply(x), {k: lastk}))
            if isinstance(v, SArr):
                f = v.frozen(); iv = tuple(t.fresh('i', 'I') for _ in v.shape_)
                p = f(iv)
                if isinstance(p, C2):
                    pr = [t.subst(ctx.apply(y), {k: lastk}) for y in (p.re, p.im)]
                    fn = lambda idx: C2(*[t.subst(y, dict(zip(iv, idx))) for y in pr])
                else:
                    p = t.subst(ctx.apply(p), {k: lastk})
                    fn = lambda idx: t.subst(p, dict(zip(iv, idx)))
                sh = tuple(t.subst(ctx.apply(d), {k: lastk}) for d in v.shape_)
                return new(sh, v.kind, fn)
            if isinstance(v, (str, type(None))): return v
        except Unsupported: pass
        return poison
    def result(self): return self.out

class Summ:
    """closed forms of loop-carried state"""
    def __init__(self, loop, k, n, sub, names):
        self.loop = loop; self.k = k; self.n = n; self.sub = sub; self.names = frozenset(names)
    def has(self, x): return bool(t.syms(x) & self.names)
    def apply(self, x):
        s = self.sub
        keys = frozenset(s)
        for _ in range(8):
            if not (allsyms(x) & keys): return x
            x = repl_apps(x, s, keys)
        return x
    def scalar(self, u, init, po, force=False):
        k, n = self.k, self.n
        U = t.app(u, (k,), po.s if po.s != 'B' else 'B')
        us = frozenset([u])
        if not self.has(po):
            def before(args):
                j = args[0]
                return ite_v(t.le(j, ZERO), init, t.subst(po, {k: t.sub(j, ONE)}))
            return before, before((n,))
        others = (t.syms(po) & self.names) - {u}
        if others and not force: return None
        # additive
        g = diff_tree(po, u, k)
        if g is not None and not self.has(g):
            def before(args):
                j = args[0]
                w = t.fresh('j', 'I')
                if k not in t.fv(g):
                    return t.add(init, t.mul(g, j))
                return t.add(init, t.summ(w, ZERO, j, t.subst(g, {k: w})))
            nn = n
            return before, before((n,))
        if others: return None
        # general recurrence
        nm = 'rec#%d' % next(_uid)
        lv = tuple(sorted((v for v in (t.fv(po) | t.fv(init)) if v is not k and v in R.loopvars()), key=lambda v: v.id))
        j = t.fresh('j', 'I')
        srt = 'B' if po.s == 'B' else ('I' if po.s == 'I' and init.s == 'I' else 'R')
        self.sub[u] = lambda args: t.app(nm, lv + (args[0],), srt)
        body = self.apply(po)
        del self.sub[u]
        nm = P.recdef(nm, lv + (j,), ite_v(t.le(j, ZERO), init, t.subst(body, {k: t.sub(j, ONE)})))
        before = lambda args: t.app(nm, lv + (args[0],), srt)
        return before, before((n,))
    def array(self, u, c0, iv, po, kd, rng, todo):
        k, n = self.k, self.n
        srt = {'f': 'R', 'i': 'I', 'b': 'B'}[kd]
        Uk = t.app(u, (k,) + iv, srt)
        lv = leaves(po) if kd != 'b' else bool_leaves(po, k, iv, frozenset([u]))
        wr = [(cs, v) for cs, v in lv if v is not Uk]
        wr = [(cs, v) for cs, v in wr if cs is not None]
        if not wr:
            return (lambda args: c0(args[1:])), c0
        # writers
        cand = []
        ok = True
        for cs, v in wr:
            c = t.and_(*cs)
            if R_infeasible(R.path() + tuple(rng), c): continue
            if '#I' in t.syms(c):
                # conditions with inner ites: simplify
                pass
            sols = self.writer(cs, c)
            if sols is None: ok = False; break
            cand.append((sols[0], sols[1], v, c, sols[2]))
        if ok and cand:
            r = self.array_map(u, c0, iv, cand, kd, srt, rng, todo)
            if r is not None: return r
        # accumulation
        g = diff_tree(po, u, k, iv)
        if g is not None and kd in 'fi' and not self.has(g):
            def before(args):
                j, idx = args[0], args[1:]
                w = t.fresh('j', 'I')
                gg = t.subst(g, dict(list(zip(iv, idx)) + [(k, w)]))
                if w not in t.fv(gg): return t.add(c0(idx), t.mul(gg, j))
                return t.add(c0(idx), t.summ(w, ZERO, j, gg))
            return before, (lambda idx: before((n,) + tuple(idx)))
        if (self.has(po) and (t.syms(po) & self.names) - {u}) and len(todo) > 1: 
            pass
        # general recurrence over iterations: own-location only
        own = all(x.a[1] == (k,) + iv for x in t.apps(po, frozenset([u])))
        others = (t.syms(po) & self.names) - {u}
        if own and not others:
            nm = 'rec#%d' % next(_uid)
            lvv = tuple(sorted((v for v in t.fv(po) if v is not k and v not in iv and v in R.loopvars()), key=lambda v: v.id))
            j = t.fresh('j', 'I')
            before = lambda args: t.app(nm, lvv + tuple(args), srt)
            self.sub[u] = before
            body = self.apply(po); del self.sub[u]
            nm = P.recdef(nm, lvv + (j,) + iv, ite_v(t.le(j, ZERO), c0(iv), t.subst(body, {k: t.sub(j, ONE)})))
            return before, (lambda idx: before((n,) + tuple(idx)))
        return None
    def writer(self, cs, c):
        """(iteration, valid, kind) of the last write under condition c"""
        k, n = self.k, self.n
        flat = []
        for x in cs: flat.extend(x.a if x.k == 'AND' else (x,))
        for a in flat:
            if a.k == 'EQ' and k in t.fv(a.a):
                s = P.solve(a.a, k)
                if s is not None:
                    val = t.and_(*[t.subst(x, {k: s}) for x in flat if x is not a])
                    return s, t.and_(val, P.isint(s), t.le(ZERO, s), t.lt(s, n)), 'once'
        if k not in t.fv(c):
            return t.sub(n, ONE), t.and_(c, t.lt(ZERO, n)), 'every'
        # two opposite inequalities that pin k?
        ineq = [a for a in flat if k in t.fv(a)]
        if all(a.k == 'LE' for a in ineq) and len(ineq) >= 1:
            lo = []; hi = []
            for a in ineq:
                co = t._lin(a.a)[1].get(k)
                if co is None: return None
                rest = t.sub(a.a, t.scale(co, k))
                if k in t.fv(rest): return None
                if co > 0: hi.append(t.floor(t.scale(-1 / co, rest)))
                else: lo.append(t.neg(t.floor(t.neg(t.scale(1 / -co, rest)))))
            # pinned to a single value?
            for p in lo:
                for q in hi:
                    if p is q or R.holds(t.eq(p, q)):
                        val = t.subst(c, {k: p})
                        return p, t.and_(val, t.le(ZERO, p), t.lt(p, n)), 'once'
            last = t.sub(n, ONE)
            for q in hi: last = R.smin(last, q)
            val = t.subst(c, {k: last})
            return last, t.and_(val, t.le(ZERO, last), t.lt(last, n)), 'range'
        return None
    def array_map(self, u, c0, iv, cand, kd, srt, rng, todo):
        k, n = self.k, self.n
        base = R.path()[:]
        # conditions must not depend on carried state
        if any(self.has(c) for _, _, _, c, _ in cand): return None
        unres = set()
        for _, _, v, _, _ in cand: unres |= (t.syms(v) & self.names)
        if unres - {u}: return None      # wait for the others
        base0 = [h for h in R.path() if k not in t.fv(h)]
        once = all(ty == 'once' for *_, ty in cand)
        # single assignment
        for a in range(len(cand)):
            for b in range(a):
                ka, va = cand[a][:2]; kb, vb = cand[b][:2]
                if not P.holds(tuple(base0) + tuple(rng), t.or_(t.not_(va), t.not_(vb), t.eq(ka, kb)), 600):
                    once = False
        def at(x, idx): return t.subst(x, dict(zip(iv, idx)))
        def before_cond(idx, kk):
            """some candidate wrote idx before iteration kk"""
            return t.or_(*[t.and_(at(v, idx), t.lt(at(s, idx), kk)) for s, v, *_ in cand])
        rec = False
        nm = 'rec#%d' % next(_uid)
        if u in unres:
            if not once: return None
            # reads of earlier iterations
            newc = []
            fixed = {}
            for s, valid, v, c, ty in cand:
                hy = tuple(base) + tuple(rng) + (c,)
                reads = t.apps(v, frozenset([u]))
                m = {}
                for x in reads:
                    loc = x.a[1][1:]
                    bc = before_cond(loc, x.a[1][0])
                    if P.holds(hy, t.not_(bc), 800): m[x] = c0(loc)
                    else:
                        bound = t.fv(x) - t.fv(v)
                        rec = True
                        full = P.holds(hy, bc, 800)
                        m[x] = (loc, None if full else bc)
                newc.append((s, valid, v, c, m))
            lvv = None
            def conv(v, m):
                def f(x):
                    if x.k == 'F' and x.a[0] == u:
                        r = m.get(x)
                        if r is None:
                            loc = x.a[1][1:]
                            bc = before_cond(loc, x.a[1][0])
                            return t.ite(bc, t.app(nm, lvv + loc, srt), c0(loc))
                        if isinstance(r, tuple):
                            loc, bc = r
                            F = t.app(nm, lvv + loc, srt)
                            return F if bc is None else ite_v(bc, F, c0(loc))
                        return r
                    return x
                return t.replace(v, f)
            lvv = tuple(sorted((w for _, _, v, c, _ in cand for w in (t.fv(v) | t.fv(c)) if w is not k and w not in iv and w in R.loopvars()), key=lambda w: w.id))
            lvv = tuple(dict.fromkeys(lvv))
            cand2 = [(s, valid, conv(v, m)) for s, valid, v, c, m in newc]
        else:
            cand2 = [(s, valid, v) for s, valid, v, c, ty in cand]
        def chain():
            r = c0(iv)
            if once:
                for s, valid, v in cand2:
                    r = ite_v(valid, cast_n(t.subst(v, {k: s}), kd), r)
            else:
                # later iteration wins; candidates of one iteration are exclusive
                done = []
                for s, valid, v in cand2:
                    cond = valid
                    for s2, v2, _ in cand2:
                        if s2 is s: continue
                        cond = t.and_(cond, t.or_(t.not_(v2), t.le(s2, s)))
                    r = ite_v(cond, cast_n(t.subst(v, {k: s}), kd), r)
            return r
        body = chain()
        if rec:
            nm = P.recdef(nm, lvv + iv, body)
            fin = lambda idx: t.app(nm, lvv + tuple(idx), srt)
        else:
            fin = lambda idx: t.subst(body, dict(zip(iv, idx)))
        def before(args):
            kk, idx = args[0], tuple(args[1:])
            if not once:
                # value before iteration kk when locations are rewritten: truncate the loop
                if any(ty == 'range' for *_, ty in cand): raise Unsupported('partial overwrite read in loop')
                r = c0(idx)
                for (s, valid, v), (_, _, _, c, ty) in zip(cand2, cand):
                    if ty == 'every':
                        r = ite_v(t.and_(at(c, idx), t.lt(ZERO, kk)), cast_n(at(t.subst(v, {k: t.sub(kk, ONE)}), idx), kd), r)
                    else:
                        r = ite_v(t.and_(at(valid, idx), t.lt(at(s, idx), kk)), fin(idx), r)
                return r
            bc = before_cond(idx, kk)
            return ite_v(bc, fin(idx), c0(idx))
        return before, fin

def R_infeasible(h, c):
    return P.holds(tuple(h) + (c,), FALSE, 500)

def leaves(p, limit=64):
    """[(conditions, value)] of the top-level ite tree"""
    out = []
    def go(p, cs):
        if len(out) > limit: raise Unsupported('too many cases in loop body')
        if p.k == 'I':
            c = p.a[0]
            for c1 in dnf(c): go(p.a[1], cs + [c1])
            for c1 in dnf(t.not_(c)): go(p.a[2], cs + [c1])
        else: out.append((cs, p))
    go(p, [])
    # merge leaves that share the value by disjunction where one side is "unwritten": keep as is
    return out

def bool_leaves(p, k, iv, names):
    """[(conditions, value)] of a truth value written at locations given by equalities of the loop counter"""
    at = []
    def atoms(x):
        if x.k in ('AND', 'OR'):
            for y in x.a: atoms(y)
        elif x.k == 'NOT': atoms(x.a)
        elif x.k == 'EQ' and k in t.fv(x) and not (t.syms(x) & names) and any(i in t.fv(x) for i in iv) and x not in at: at.append(x)
    atoms(p)
    out = []
    def go(p, cs, rest):
        if not rest: out.append((cs, p)); return
        a = rest[0]
        def put(v): return t.replace(p, lambda x: v if x is a else x)
        go(put(TRUE), cs + [a], rest[1:]); q = put(FALSE)
        go(q, cs + [t.not_(a)], rest[1:])
    go(p, [], at[:4])
    return out

def dnf(c):
    """disjuncts (made exclusive) of a condition"""
    if c.k == 'OR':
        r = []
        neg = []
        for x in c.a:
            for y in dnf(x): r.append(t.and_(*(neg + [y])))
            neg = neg + [t.not_(x)]
        return r
    if c.k == 'NOT' and c.a.k == 'AND':
        r = []; pos = []
        for x in c.a.a:
            for y in dnf(t.not_(x)): r.append(t.and_(*(pos + [y])))
            pos = pos + [x]
        return r
    return [c]

def diff_tree(po, u, k, iv=None):
    """g with po = U + g (leafwise), or None"""
    srt = 'R'
    def isU(x): return x.k == 'F' and x.a[0] == u and x.a[1][0] is k and (iv is None or x.a[1][1:] == iv)
    def go(p):
        if p.k == 'I':
            a, b = go(p.a[1]), go(p.a[2])
            if a is None or b is None: return None
            if u in t.syms(p.a[0]): return None
            return t.ite(p.a[0], a, b)
        if isU(p): return ZERO
        if p.k == 'A':
            us = [x for x, c in p.a[1] if isU(x) and c == 1]
            if len(us) == 1:
                g = t.sub(p, us[0])
                return g if u not in t.syms(g) else None
            # U inside an ite summand
            its = [x for x, c in p.a[1] if c == 1 and x.k == 'I' and u in t.syms(x)]
            if len(its) == 1:
                rest = t.sub(p, its[0])
                if u in t.syms(rest): return None
                x = its[0]
                return go(t.ite(x.a[0], t.add(x.a[1], rest), t.add(x.a[2], rest)))
        return None
    return go(po)

def allsyms(x):
    """symbols, including those in recursive definitions"""
    sy = t.syms(x)
    rec = [s for s in sy if s in P.RECDEF]
    if not rec: return sy
    seen = set(); out = set(sy); st = rec
    while st:
        r = st.pop()
        if r in seen: continue
        seen.add(r)
        s2 = t.syms(P.RECDEF[r][1]); out |= s2
        st.extend(x for x in s2 if x in P.RECDEF)
    return out

def repl_apps(x, s, keys):
    """replace U-applications by their closed forms; copies recursive definitions"""
    ren = {}
    def name_for(nm):
        if nm in ren: return ren[nm]
        ps, body = P.RECDEF[nm]
        if not (allsyms(t.app(nm, (), 'R')) & keys): ren[nm] = nm; return nm
        new_ = 'rec#%d' % next(_uid); ren[nm] = new_
        P.RECDEF[new_] = (ps, ZERO)
        body = t.replace(body, f); del P.RECDEF[new_]
        same = P.recdef(new_, ps, body)
        if same != new_:
            P.RECDEF[new_] = (ps, body); ren[nm] = same
        return same
    def f(y):
        if y.k == 'F':
            if y.a[0] in keys: return s[y.a[0]](y.a[1])
            if y.a[0] in P.RECDEF:
                nn = name_for(y.a[0])
                if nn != y.a[0]: return t.app(nn, y.a[1], y.s)
        return y
    return t.replace(x, f)

def as_seq(it):
    if isinstance(it, SymSeq): return it
    if isinstance(it, SArr):
        if not it.shape_: raise TypeError('iteration over a 0-d array')
        if it.shape_[0].k == 'K': return iter([it[i] for i in range(int(it.shape_[0].a))])
        return SymSeq(it.shape_[0], lambda k: it[S(k)] if k.k != 'K' else it[int(k.a)])
    return iter(it)
