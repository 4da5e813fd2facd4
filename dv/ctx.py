"""The contract API: one contract text, evaluated symbolically (proof obligations)
or concretely (the real function under CPython/numpy)."""
import numpy as np, math, random, copy, os, sys, tempfile, shutil
from fractions import Fraction

class CheckFailed(Exception):
    pass
class Skip(Exception):
    """the drawn input does not satisfy the precondition"""

class Contract:
    def __init__(self, fn, title, targets, symbolic, samples, cap, timeout, bounded, fuel, budget, covers=None):
        self.fn = fn; self.name = fn.__name__; self.title = title; self.targets = targets
        self.symbolic = symbolic; self.samples = samples; self.cap = cap; self.timeout = timeout
        self.bounded = bounded; self.fuel = fuel; self.budget = budget

REG = []
def contract(title, targets, symbolic=True, samples=40, cap=4, timeout=12, bounded=None, fuel=2, budget=100):
    """declare a contract.  `symbolic=False` marks a bounded stand-in (why: `bounded`)."""
    def deco(fn):
        REG.append(Contract(fn, title, [targets] if isinstance(targets, str) else list(targets), symbolic, samples, cap, timeout, bounded, fuel, budget))
        return fn
    return deco

# ------------------------------------------------------------------------------ concrete
class Concrete:
    symbolic = False
    def __init__(self, rng, values=None, tmp=None):
        self.rng_ = rng; self.values = values or {}; self.drawn = {}; self.nchecks = 0
        self.more = None; self.tmp_ = tmp; self.fail = None; self.arrays = {}
    def _get(self, name, f):
        if name in self.drawn: raise RuntimeError('duplicate input ' + name)
        v = self.values[name] if name in self.values else f()
        self.drawn[name] = v
        return v
    @property
    def rng(self):
        """generator of further inputs (of contracts only evaluated on drawn inputs), replayed from its seed"""
        if self.more is None: self.more = random.Random(int(self._get('seed', lambda: self.rng_.getrandbits(40))))
        return self.more
    def int(self, name, lo=None, hi=None, draw=None):
        a, b = draw or (lo if lo is not None else -5, None)
        if b is None: b = hi if hi is not None else a + 6
        if lo is not None: a = max(a, lo)
        if hi is not None: b = min(b, hi)
        def f():
            r = self.rng_.random()
            if r < 0.15: return a
            if r < 0.25: return b
            return self.rng_.randint(a, b)
        v = int(self._get(name, f))
        if lo is not None and v < lo or hi is not None and v > hi: raise Skip(name)
        return v
    def real(self, name, lo=None, hi=None, draw=None, special=()):
        a, b = draw or (lo if lo is not None else -3.0, hi if hi is not None else 3.0)
        def f():
            r = self.rng_.random()
            if special and r < 0.25: return float(self.rng_.choice(list(special)))
            if r < 0.35: return float(self.rng_.choice([a, b]))
            return self.rng_.uniform(a, b)
        v = float(self._get(name, f))
        if lo is not None and v < lo or hi is not None and v > hi: raise Skip(name)
        return v
    def arr(self, name, shape, kind='f', lo=None, hi=None, draw=None, distinct=False, nonzero=False, sprinkle=()):
        shape = tuple(int(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        def f():
            x = f0()
            if sprinkle:
                for v in sprinkle:
                    if self.rng_.random() < 0.5: x = np.where(np.random.default_rng(self.rng_.getrandbits(32)).random(shape) < 0.2, v, x)
            return x
        def f0():
            g = np.random.default_rng(self.rng_.getrandbits(32))
            if kind == 'b':
                p = self.rng_.choice([0.0, 0.3, 0.5, 0.8])
                return g.random(shape) < p
            if kind == 'i':
                a, b = draw or (lo if lo is not None else -6, hi if hi is not None else 6)
                return g.integers(a, b + 1, size=shape)
            if lo is None and hi is None and draw is None:
                x = g.normal(size=shape)
                if nonzero: return np.where(x < 0, x - 0.3, x + 0.3)
                if self.rng_.random() < 0.3: x = np.round(x)
                return x
            a, b = draw or (lo if lo is not None else -1.0, hi if hi is not None else (lo if lo is not None else 0) + 2.0)
            return g.uniform(a, b, size=shape)
        v = self._get(name, f)
        if callable(v):       # counter-model: function of the index
            out = f()
            for idx in np.ndindex(*shape):
                w = v(idx)
                if w is not None: out[idx] = w
            v = out; self.drawn[name] = v
        v = np.array(v, dtype={'f': float, 'i': int, 'b': bool}[kind])
        if v.shape != shape: raise Skip(name)
        if nonzero and np.any(v == 0): raise Skip(name)
        if kind != 'b' and (lo is not None and np.any(v < lo) or hi is not None and np.any(v > hi)): raise Skip(name)
        self.arrays[name] = v.copy()
        self.drawn[name] = v.copy()
        return v
    def choice(self, name, opts):
        opts = list(opts)
        i = self._get('?' + name, lambda: self.rng_.randrange(len(opts)))
        return opts[i]
    def note_var(self, *a): pass
    def assume(self, c):
        if not bool(np.all(c)): raise Skip('assume')
    # -- checks
    def check(self, c, label=''):
        self.nchecks += 1
        if not bool(np.all(c)): raise CheckFailed(label)
    def eq(self, a, b, label='', tol=1e-9, scale=None):
        self.nchecks += 1
        a = np.asarray(a); b = np.asarray(b)
        if a.shape != b.shape:
            try: a, b = np.broadcast_arrays(a, b)
            except ValueError: raise CheckFailed('%s: shapes %s and %s' % (label, a.shape, b.shape))
        if a.dtype.kind in 'biu' and b.dtype.kind in 'biu':
            ok = a == b
        else:
            s = 1.0 if scale is None else scale
            with np.errstate(all='ignore'):
                fin = np.isfinite(a) & np.isfinite(b)
                ok = np.where(fin, np.abs(a - b) <= tol * (s + np.abs(a) + np.abs(b)), (a == b) | (np.isnan(a) & np.isnan(b)))
        if not np.all(ok):
            i = tuple(int(x) for x in np.argwhere(~np.atleast_1d(ok))[0])
            raise CheckFailed('%s: got %r, expected %r%s' % (label, np.atleast_1d(a)[i].item() if a.ndim else a.item(), np.atleast_1d(b)[i].item() if b.ndim else b.item(), ' at %s' % (i,) if a.ndim else ''))
    def forall(self, ranges, f, label=''):
        idx = [range(int(a), int(b)) for a, b in ranges]
        tot = 1
        for r in idx: tot *= max(len(r), 0)
        if tot <= 4000:
            import itertools
            for p in itertools.product(*idx): f(*p)
        else:
            for _ in range(4000):
                f(*[self.rng_.choice(r) for r in idx])
    def len(self, a): return int(a.shape[0])
    def shape(self, a, sh, label='shape'):
        self.nchecks += 1
        if tuple(int(x) for x in np.shape(a)) != tuple(int(x) for x in sh):
            raise CheckFailed('%s: %s, expected %s' % (label, np.shape(a), tuple(sh)))
    def same_array(self, a, b, label=''):
        """a equals the recorded copy b everywhere"""
        self.nchecks += 1
        if not (np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(a).dtype.kind in 'fc')):
            raise CheckFailed(label + ': changed')
    def sum(self, lo, hi, f): 
        s = 0.0
        for k in range(int(lo), int(hi)): s = s + f(k)
        return s
    def ite(self, c, a, b): return a if c else b
    def implies(self, a, b): return (not a) or b
    def raises(self, exc, f, label='raises'):
        self.nchecks += 1
        try: f()
        except exc: return
        raise CheckFailed(label + ': no exception')
    def snap(self, a): return copy.deepcopy(a)
    def freeze(self, f):
        return f
    def lit(self, x): return float(x)
    def text(self, x, spec='.15E'): return format(x, spec)
    def tmpdir(self):
        if self.tmp_ is None: self.tmp_ = tempfile.mkdtemp(prefix='dv_')
        return self.tmp_
    def concrete_only(self): pass
    def elem(self, a, idx): return a[idx]
    def close(self, a, b, tol=1e-9, scale=1.0):
        if np.isnan(a) and np.isnan(b): return True
        return bool(abs(a - b) <= tol * (scale + abs(a) + abs(b))) if np.isfinite(a) and np.isfinite(b) else bool(a == b)
    def same(self, a, b): return bool(a == b) or bool(a != a and b != b)
    def lnot(self, a): return not a
    def when(self, c, f):
        """the checks of f, under the condition c"""
        if bool(c): f()
    def callee(self, mod, fname, fn): pass
    def hint(self, *v): pass
    def havoc_callee(self, mod, fname): pass
    def table(self, shape, f, kind='f'):
        a = np.zeros(tuple(int(x) for x in shape), dtype={'f': float, 'i': int, 'b': bool}[kind])
        for i in np.ndindex(a.shape): a[i] = f(*i)
        return a

# ------------------------------------------------------------------------------ symbolic
class Symbolic:
    symbolic = True
    def __init__(self):
        from . import sym, npshim, terms
        self.s = sym; self.np = npshim; self.t = terms
        self.ints = {}; self.reals = {}; self.arrays = {}; self.choices = {}; self.caps = {}
    def int(self, name, lo=None, hi=None, draw=None):
        t, R = self.t, self.s.R
        v = t.var(name, 'I'); self.ints[name] = v
        if lo is not None: R.base.append(t.le(t.K(lo) if not isinstance(lo, self.s.S) else lo.n, v))
        if hi is not None: R.base.append(t.le(v, t.K(hi) if not isinstance(hi, self.s.S) else hi.n))
        self.caps[name] = (draw or (lo, hi))
        return self.s.S(v)
    def real(self, name, lo=None, hi=None, draw=None, special=()):
        t, R = self.t, self.s.R
        v = t.var(name, 'R'); self.reals[name] = v
        if lo is not None: R.base.append(t.le(self.s.N_(lo), v))
        if hi is not None: R.base.append(t.le(v, self.s.N_(hi)))
        return self.s.S(v)
    def arr(self, name, shape, kind='f', lo=None, hi=None, draw=None, distinct=False, nonzero=False, sprinkle=()):
        t = self.t
        shape = tuple(self.np._dim(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        srt = {'f': 'R', 'i': 'I', 'b': 'B'}[kind]
        fn = 'in_' + name
        self.arrays[name] = (fn, shape, kind)
        if lo is not None or hi is not None or nonzero:
            lo_, hi_ = lo, hi
            def facts(a):
                r = []
                if lo_ is not None: r.append(t.le(self.s.N_(lo_), a))
                if hi_ is not None: r.append(t.le(a, self.s.N_(hi_)))
                if nonzero: r.append(t.ne(a, t.ZERO))
                return r
            self.s.EXT[fn] = facts
        else: self.s.EXT.pop(fn, None)
        return self.s.new(shape, kind, lambda idx: t.app(fn, idx, srt), name)
    def choice(self, name, opts):
        opts = list(opts)
        R = self.s.R
        i = R.nch; R.nch += 1
        if i < len(R.chprefix): j = R.chprefix[i]
        else:
            j = 0; R.chprefix = R.chprefix + [0]; R.chsize.append(len(opts))
        R.chmax[i] = len(opts)
        self.choices[name] = j
        return opts[j]
    def assume(self, c):
        R, t = self.s.R, self.t
        if isinstance(c, (bool, np.bool_)):
            if not c: raise Skip('assume')
            return
        n = self.s.N_(c)
        if n is t.FALSE: raise Skip('assume')
        R.base.append(n)
    def check(self, c, label=''):
        n = self.s.N_(c) if not isinstance(c, (bool, np.bool_)) else self.t.K(bool(c))
        if n.s != 'B': n = self.t.ne(n, self.t.ZERO)
        self.s.R.oblige(n, label)
    def eq(self, a, b, label='', tol=None, scale=None):
        s, t = self.s, self.t
        if isinstance(a, (s.SArr, np.ndarray)) and s.as_arr(a).ndim or isinstance(b, (s.SArr, np.ndarray)) and s.as_arr(b).ndim:
            A, B = s.as_arr(a), s.as_arr(b)
            if B.ndim == 0 or A.ndim == 0:
                sh = A.shape_ if A.ndim else B.shape_
            else:
                if A.ndim != B.ndim: s.R.oblige(t.FALSE, label + ': number of dimensions'); return
                sh = A.shape_
                for x, y in zip(A.shape_, B.shape_): s.R.oblige(t.eq(x, y), label + ': shape')
            iv = [t.fresh('i', 'I') for _ in sh]
            mark = len(s.R.scope)
            for i, n in zip(iv, sh): s.R.scope += [t.le(t.ZERO, i), t.lt(i, n)]
            self._eq(A.at(tuple(iv)) if A.ndim else A.at(()), B.at(tuple(iv)) if B.ndim else B.at(()), label)
            del s.R.scope[mark:]
            return
        self._eq(s.N_(a), s.N_(b), label)
    def _eq(self, a, b, label):
        t, s = self.t, self.s
        if isinstance(a, s.C2) or isinstance(b, s.C2):
            a = a if isinstance(a, s.C2) else s.C2(a, t.ZERO); b = b if isinstance(b, s.C2) else s.C2(b, t.ZERO)
            s.R.oblige(t.eq(a.re, b.re), label + ' (re)'); s.R.oblige(t.eq(a.im, b.im), label + ' (im)'); return
        if a.s != b.s and 'B' in (a.s, b.s): a, b = s.tonum(a), s.tonum(b)
        s.R.oblige(t.eq(a, b), label)
    def forall(self, ranges, f, label=''):
        t, s = self.t, self.s
        iv = [t.fresh('i', 'I') for _ in ranges]
        mark = len(s.R.scope)
        for i, (lo, hi) in zip(iv, ranges): s.R.scope += [t.le(s.N_(lo), i), t.lt(i, s.N_(hi))]
        for i in iv: self.skolem.append(i)
        try: f(*[s.S(i) for i in iv])
        finally: del s.R.scope[mark:]
    skolem = []
    def len(self, a): return self.s.W(self.s.as_arr(a).shape_[0])
    def shape(self, a, sh, label='shape'):
        s, t = self.s, self.t
        if isinstance(a, s.SymMA): a = a.data
        if not isinstance(a, (s.SArr, np.ndarray)): s.R.oblige(t.K(len(tuple(sh)) == 0), label); return
        A = s.as_arr(a)
        if A.ndim != len(tuple(sh)): s.R.oblige(t.FALSE, label + ': number of dimensions'); return
        for x, y in zip(A.shape_, sh): s.R.oblige(t.eq(x, s.N_(y)), label)
    def same_array(self, a, b, label=''): self.eq(a, b, label)
    def sum(self, lo, hi, f):
        t, s = self.t, self.s
        j = t.fresh('j', 'I')
        mark = len(s.R.scope)
        s.R.scope += [t.le(s.N_(lo), j), t.lt(j, s.N_(hi))]
        try: v = s.N_(f(s.S(j)))
        finally: del s.R.scope[mark:]
        if isinstance(v, s.C2):
            return s.C2(self.np.sum_(j, s.N_(lo), s.N_(hi), v.re), self.np.sum_(j, s.N_(lo), s.N_(hi), v.im))
        if j not in t.fv(v):
            n = t.sub(s.N_(hi), s.N_(lo))
            return s.W(t.mul(v, n)) if s.R.holds(t.le(t.ZERO, n)) else s.W(t.summ(j, s.N_(lo), s.N_(hi), v))
        return s.W(t.summ(j, s.N_(lo), s.N_(hi), v))
    def ite(self, c, a, b):
        if isinstance(c, (bool, np.bool_)): return a if c else b
        return self.s.W(self.s.ite_v(self.s.N_(c), self.s.N_(a), self.s.N_(b)))
    def implies(self, a, b):
        na = self.t.K(a) if isinstance(a, bool) else self.s.N_(a)
        nb = self.t.K(b) if isinstance(b, bool) else self.s.N_(b)
        return self.s.W(self.t.implies(na, nb))
    def raises(self, exc, f, label='raises'):
        try: f()
        except exc: return
        self.s.R.oblige(self.t.FALSE, label + ': no exception')
    def snap(self, a):
        s = self.s
        if isinstance(a, s.SArr): return a.copy()
        return copy.deepcopy(a)
    def lit(self, x): return self.s.S(self.t.K(Fraction(str(x))))
    def text(self, x, spec='.15E'): return self.s.totext(self.s.N_(x), spec)
    tmp_ = None
    def tmpdir(self):
        if self.tmp_ is None: self.tmp_ = tempfile.mkdtemp(prefix='dv_')
        return self.tmp_
    def concrete_only(self): raise self.s.Unsupported('declared concrete-only')
    def elem(self, a, idx): return self.s.W(a.at(tuple(self.s.N_(i) for i in idx)))
    def close(self, a, b, tol=None, scale=None):
        return self.s.W(self.t.eq(self.s.N_(a), self.s.N_(b)))
    def same(self, a, b): return self.close(a, b)
    def lnot(self, a):
        if isinstance(a, (bool, np.bool_)): return not a
        return self.s.W(self.t.not_(self.s.N_(a)))
    def when(self, c, f):
        t, s = self.t, self.s
        if isinstance(c, (bool, np.bool_)):
            if c: f()
            return
        n = s.N_(c)
        if n is t.FALSE: return
        mark = len(s.R.scope); s.R.scope.append(n)
        try: f()
        finally: del s.R.scope[mark:]
    def table(self, shape, f, kind='f'):
        """an array given by a function of its indices"""
        s = self.s
        sh = tuple(s.N_(x) for x in shape)
        t = self.t
        def fn(idx):
            mark = len(s.R.scope); s.R.scope += [t.and_(t.le(t.ZERO, i), t.lt(i, n)) for i, n in zip(idx, sh)]
            try: return s.N_(f(*[s.S(i) for i in idx]))
            finally: del s.R.scope[mark:]
        return s.new(sh, kind, fn)
    def uf(self, name, *args):
        """application of an unspecified function"""
        s, t = self.s, self.t
        return s.S(t.app('uf_' + name, tuple(s.N_(a) for a in args), 'R'))
    def hint(self, *v):
        """candidate values of rounded-down quantities (each use is proved)"""
        self.s.R.hints += [self.s.N_(x) for x in v]
    def havoc_callee(self, mod, fname):
        """the result of this callee is irrelevant to the property: any value of the argument's shape"""
        s, t = self.s, self.t
        def hv(x, *a, **k):
            A = s.as_arr(x)
            return s.new(A.shape_, 'i', lambda idx: t.app('hv_' + fname, idx, 'I'), fname)
        self.callee(mod, fname, hv)
    def callee(self, mod, fname, fn):
        """replace a callee by its contract (only in symbolic mode)"""
        m = self.loader.load(mod); setattr(m, fname, fn)
        for x in self.loader.mods.values():
            if x is not m and fname in getattr(x, '__dict__', {}) and getattr(x, '__name__', '').startswith('gravity_toolkit'):
                setattr(x, fname, fn)
