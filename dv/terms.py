"""Hash-consed first-order terms over Int, Real and Bool.

Arithmetic is mathematical (no overflow, no rounding).  Terms are kept in a
light canonical form: linear combinations with rational coefficients over
monomials over atoms.  Nothing here depends on a solver.
"""
from fractions import Fraction
import itertools

class N:
    __slots__ = ('k', 'a', 's', 'id', '_fv', '_sy')
    def __repr__(self):
        return show(self)

_F0, _F1 = Fraction(0), Fraction(1)
_tab = {}
_cnt = itertools.count()

def _mk(k, a, s):
    key = (k, a, s)
    n = _tab.get(key)
    if n is None:
        n = N(); n.k = k; n.a = a; n.s = s; n.id = next(_cnt); n._fv = None; n._sy = None
        _tab[key] = n
    return n

def reset():
    """drop the table of terms (between independent contracts)"""
    keep = {k: v for k, v in _tab.items() if v.k == 'K'}
    _tab.clear(); _tab.update(keep)

# --- constants and variables -------------------------------------------------
def K(v):
    if v is True or v is False:
        return _mk('K', v, 'B')
    if isinstance(v, int):
        return _mk('K', Fraction(v), 'I')
    if isinstance(v, Fraction):
        return _mk('K', v, 'I' if v.denominator == 1 else 'R')
    raise TypeError(v)

TRUE, FALSE = _mk('K', True, 'B'), _mk('K', False, 'B')
ZERO, ONE, MONE = K(0), K(1), K(-1)
_names = itertools.count()

def var(name, s):
    return _mk('V', name, s)

def fresh(prefix, s):
    return _mk('V', '%s!%d' % (prefix, next(_names)), s)

def freshname(prefix):
    return '%s!%d' % (prefix, next(_names))

def isK(n): return n.k == 'K'

# --- arithmetic ---------------------------------------------------------------
def _lin(n):
    """(const, {atom: coef})"""
    if n.k == 'K':
        return n.a, {}
    if n.k == 'A':
        return n.a[0], dict(n.a[1])
    return Fraction(0), {n: Fraction(1)}

def _fromlin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda x: x[0].id))
    if not items:
        return K(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    s = 'I' if c.denominator == 1 and all(t.s == 'I' and k.denominator == 1 for t, k in items) else 'R'
    return _mk('A', (c, items), s)

def add(*ns):
    c = Fraction(0); d = {}
    for n in ns:
        if n.k == 'K':
            c += n.a
        elif n.k == 'A':
            c += n.a[0]
            for t, k in n.a[1]:
                d[t] = d.get(t, _F0) + k
        else:
            d[n] = d.get(n, _F0) + _F1
    return _fromlin(c, d)

def scale(q, n):
    if q == 0: return ZERO
    if q == 1: return n
    c, d = _lin(n)
    return _fromlin(c * q, {t: k * q for t, k in d.items()})

def neg(n): return scale(Fraction(-1), n)
def sub(a, b): return add(a, neg(b))

def _mono(n):
    """(coef, {atom: exp}) of a term seen as one monomial"""
    if n.k == 'K':
        return n.a, {}
    if n.k == 'M':
        return Fraction(1), dict(n.a)
    if n.k == 'A':
        c, items = n.a
        if c == 0 and len(items) == 1:
            t, k = items[0]
            q, m = _mono(t)
            return k * q, m
        # primitive form: leading coefficient one
        lead = items[0][1]
        if lead != 1:
            p = _fromlin(c / lead, {t: k / lead for t, k in items})
            return lead, {p: 1}
    return Fraction(1), {n: 1}

def _frommono(q, m):
    extra = None
    out = {}
    for t, e in m.items():
        if e == 0: continue
        if t.k == 'F' and t.a[0] == 'sqrt' and (e >= 2 or e < 0):
            h, r = divmod(e, 2)
            if r: out[t] = out.get(t, 0) + r
            x = powi(t.a[1][0], h)
            extra = x if extra is None else mul(extra, x)
            continue
        if t.k == 'F' and t.a[0] == 'pow' and t.a[1][1].k == 'K' and t.a[1][1].a.denominator <= 64 and (e >= t.a[1][1].a.denominator or e < 0):
            ex = t.a[1][1].a
            h, r = divmod(e, ex.denominator)
            if r: out[t] = out.get(t, 0) + r
            x = powi(t.a[1][0], h * ex.numerator)
            extra = x if extra is None else mul(extra, x)
            continue
        out[t] = out.get(t, 0) + e
    items = tuple(sorted(((t, e) for t, e in out.items() if e != 0), key=lambda x: x[0].id))
    if not items:
        r = K(q)
    elif len(items) == 1 and items[0][1] == 1:
        r = scale(q, items[0][0])
    else:
        s = 'I' if all(t.s == 'I' and e > 0 for t, e in items) else 'R'
        r = scale(q, _mk('M', items, s))
    if extra is not None:
        r = mul(r, extra)
    return r

def mul(*ns):
    q = Fraction(1); m = {}
    for n in ns:
        c, d = _mono(n)
        if c == 0: return ZERO
        q *= c
        for t, e in d.items():
            m[t] = m.get(t, 0) + e
    # a power cancels only when exponents were combined: x*x^-1 is kept as 1
    # only for constants; for atoms see prove.py (needs x != 0)
    return _frommono_guard(q, m, ns)

def _frommono_guard(q, m, ns):
    return _frommono(q, m)

NONZERO_USED = set()     # atoms cancelled as x/x: their being non-zero is an obligation

def powi(n, e):
    if e == 0: return ONE
    if e == 1: return n
    if n.k == 'K':
        if n.a == 0 and e < 0:
            return app('inv0', (), 'R')
        return K(n.a ** e)
    if n.k == 'I' and e < 0:
        return ite(n.a[0], powi(n.a[1], e), powi(n.a[2], e))
    q, m = _mono(n)
    return _frommono(q ** e, {t: k * e for t, k in m.items()})

def div(a, b):
    return mul(a, powi(b, -1))

# --- applications ---------------------------------------------------------------
def app(name, args, s):
    return _mk('F', (name, tuple(args)), s)

PI = app('pi', (), 'R')

def sqrt(x):
    if x.k == 'K' and x.a >= 0:
        from math import isqrt
        n, d = isqrt(x.a.numerator), isqrt(x.a.denominator)
        if n * n == x.a.numerator and d * d == x.a.denominator:
            return K(Fraction(n, d))
    return app('sqrt', (x,), 'R')

# values of closed terms (to 40 digits), where they decide a comparison or an integer part
import decimal as _dec
_DC = _dec.Context(prec=60)
_PI = _dec.Decimal('3.14159265358979323846264338327950288419716939937510582097494459230781640628620899')
def closed(n):
    """value of a term made of rationals, pi, exponentials, logarithms and roots; None for others"""
    r = _CV.get(n, 0)
    if r == 0: r = _CV[n] = _closed(n)
    return r
_CV = {}
def _closed(n):
    k = n.k
    if k == 'K': return _DC.divide(_dec.Decimal(n.a.numerator), _dec.Decimal(n.a.denominator))
    if k == 'F':
        if n.a[0] == 'pi': return _PI
        if n.a[0] not in ('exp', 'log', 'sqrt') or len(n.a[1]) != 1: return None
        v = closed(n.a[1][0])
        if v is None or abs(v) > 500 or n.a[0] != 'exp' and v <= 0: return None
        return {'exp': _DC.exp, 'log': _DC.ln, 'sqrt': _DC.sqrt}[n.a[0]](v)
    if k == 'A':
        c, items = n.a; r = _closed(K(c))
        for x, q in items:
            v = closed(x)
            if v is None: return None
            r = _DC.add(r, _DC.multiply(v, _closed(K(q))))
        return r
    if k == 'M':
        r = _dec.Decimal(1)
        for x, e in n.a:
            v = closed(x)
            if v is None or not isinstance(e, (int, Fraction)) or Fraction(e).denominator != 1 or v == 0: return None
            for _ in range(abs(int(e))): r = _DC.multiply(r, v) if e > 0 else _DC.divide(r, v)
        return r
    return None
def sign(n):
    """-1 or 1 where a closed term is decidedly negative or positive, else 0"""
    if 'inf' in syms(n):
        # an infinity exceeds every (finite) value
        if n.k == 'F' and n.a[0] == 'inf': return 1
        if n.k != 'A': return 0
        f = [(x, q) for x, q in n.a[1] if 'inf' in syms(x)]
        return (1 if f[0][1] > 0 else -1) if len(f) == 1 and f[0][0].k == 'F' and f[0][0].a[0] == 'inf' else 0
    if n.k == 'K' or syms(n) & _OPEN or fv(n): return 0
    v = closed(n)
    return 0 if v is None or abs(v) < _dec.Decimal('1e-30') else (1 if v > 0 else -1)
_OPEN = frozenset(('#I', '#S'))

def floor(x):
    if x.s == 'I': return x
    if x.k == 'K':
        return K(x.a.numerator // x.a.denominator)
    if not fv(x) and not (syms(x) & _OPEN):
        v = closed(x)
        if v is not None and abs(v) < 10 ** 15:
            f = v.to_integral_value(rounding=_dec.ROUND_FLOOR)
            if min(v - f, f + 1 - v) > _dec.Decimal('1e-20'): return K(int(f))
    c, d = _lin(x)
    # pull integer part out
    ints = {t: Fraction(k.numerator // k.denominator) for t, k in d.items() if t.s == 'I' and abs(k) >= 1}
    ints = {t: k for t, k in ints.items() if k != 0}
    ci = Fraction(c.numerator // c.denominator)
    if ints or ci:
        base = _fromlin(ci, ints)
        rest = sub(x, base)
        return add(base, floor(rest)) if rest.s != 'I' else add(base, rest)
    return app('floor', (x,), 'I')

def idiv(a, b):
    """floor division on integers"""
    return floor(div(a, b))

def mod(a, b):
    return sub(a, mul(b, floor(div(a, b))))

def ipow(b, e):
    """b**e, integer exponent term"""
    if e.k == 'K':
        return powi(b, int(e.a))
    if b.k == 'K' and b.a == 1:
        return ONE
    c, d = _lin(e)
    if b.k == 'K' and b.a == -1:
        # parity form
        d2 = {t: Fraction(k % 2) for t, k in d.items()}
        e2 = _fromlin(Fraction(c % 2), d2)
        if e2.k == 'K':
            return powi(b, int(e2.a))
        c2, d3 = _lin(e2)
        base = app('ipow', (b, _fromlin(Fraction(0), d3)), 'I')
        return neg(base) if c2 == 1 else base
    if c != 0 and c.denominator == 1:
        return mul(app('ipow', (b, _fromlin(Fraction(0), d)), 'R'), powi(b, int(c)))
    return app('ipow', (b, e), 'R')

# --- booleans ---------------------------------------------------------------------
def le0(x):
    if x.k == 'K': return TRUE if x.a <= 0 else FALSE
    if x.s == 'R' and not fv(x):
        g = sign(x)
        if g: return TRUE if g < 0 else FALSE
    if x.k == 'A':
        c, it = x.a
        if x.s == 'I':
            from math import gcd
            g = 0
            for _, k in it: g = gcd(g, int(k))
            if g > 1:
                # sum k t + c <= 0  <=>  sum (k/g) t + ceil(c/g) <= 0
                x = _fromlin(Fraction(-((-int(c)) // g)), {t: k / g for t, k in it})
        else:
            g = abs(it[0][1])
            if g != 1: x = scale(1 / g, x)
    return _mk('LE', x, 'B')

def le(a, b): return le0(sub(a, b))
def lt(a, b):
    d = sub(a, b)
    if d.s == 'I': return le0(add(d, ONE))
    if d.k == 'K': return TRUE if d.a < 0 else FALSE
    return not_(le0(neg(d)))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)

def eq(a, b):
    if a is b: return TRUE
    if a.s == 'B' or b.s == 'B':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    d = sub(a, b)
    if d.k == 'K': return TRUE if d.a == 0 else FALSE
    if d.s == 'R' and not fv(d) and sign(d): return FALSE
    if d.k == 'A':
        c, it = d.a
        lead = it[0][1]
        d = scale(1 / lead, d)
        # integer infeasibility: primitive integer form with fractional constant
        if all(t.s == 'I' for t, _ in it):
            from math import lcm
            m = 1
            for _, k in d.a[1] if d.k == 'A' else ():
                m = lcm(m, k.denominator)
            if d.k == 'A':
                from math import gcd
                g = 0
                for _, k in d.a[1]: g = gcd(g, int(k * m))
                if (d.a[0] * m) % g != 0: return FALSE
    return _mk('EQ', d, 'B')

def ne(a, b): return not_(eq(a, b))

def not_(x):
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    if x.k == 'NOT': return x.a
    if x.k == 'LE' and x.a.s == 'I':
        return le0(add(neg(x.a), ONE))
    return _mk('NOT', x, 'B')

def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.k == 'AND': out.extend(x.a)
        else: out.append(x)
    u = tuple(sorted(set(out), key=lambda t: t.id))
    if not u: return TRUE
    if len(u) == 1: return u[0]
    us = set(u)
    for x in u:
        if not_(x) in us: return FALSE
    return _mk('AND', u, 'B')

def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        if x.k == 'OR': out.extend(x.a)
        else: out.append(x)
    u = tuple(sorted(set(out), key=lambda t: t.id))
    if not u: return FALSE
    if len(u) == 1: return u[0]
    us = set(u)
    for x in u:
        if not_(x) in us: return TRUE
    return _mk('OR', u, 'B')

def implies(a, b): return or_(not_(a), b)

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.s == 'B' and b.s == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if c.k == 'NOT':
        return ite(c.a, b, a)
    if a.k == 'I' and a.a[0] is c: a = a.a[1]
    if b.k == 'I' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    s = 'I' if a.s == 'I' and b.s == 'I' else 'R'
    return _mk('I', (c, a, b), s)

def minn(a, b): return ite(le(a, b), a, b)
def maxn(a, b): return ite(le(b, a), a, b)
def absn(a):
    if a.k == 'K': return K(abs(a.a))
    return ite(le(ZERO, a), a, neg(a))

# --- sums ---------------------------------------------------------------------------
def summ(v, lo, hi, body):
    """sum of body for v = lo .. hi-1 (0 when hi <= lo)"""
    if body is ZERO: return ZERO
    d = sub(hi, lo)
    if d.k == 'K':
        n = d.a
        if n <= 0: return ZERO
        if n <= 6:
            return add(*[subst(body, {v: add(lo, K(i))}) for i in range(int(n))])
    return _mk('S', (v, lo, hi, body), 'I' if body.s == 'I' else 'R')

# --- traversal ------------------------------------------------------------------------
def kids(n):
    k = n.k
    if k in ('K', 'V'): return ()
    if k == 'A': return tuple(t for t, _ in n.a[1])
    if k == 'M': return tuple(t for t, _ in n.a)
    if k == 'I': return n.a
    if k == 'F': return n.a[1]
    if k in ('LE', 'EQ', 'NOT'): return (n.a,)
    if k in ('AND', 'OR'): return n.a
    if k == 'S': return n.a[1:]
    raise TypeError(k)

_E = frozenset()
def fv(n):
    if n._fv is None:
        if n.k == 'V': n._fv = frozenset((n,))
        elif n.k == 'S':
            v, lo, hi, b = n.a
            n._fv = fv(lo) | fv(hi) | (fv(b) - {v})
        else:
            r = _E
            for x in kids(n): r = r | fv(x)
            n._fv = r
    return n._fv

def syms(n):
    """names of applied functions, plus 'S' for sums"""
    if n._sy is None:
        r = _E
        if n.k == 'F':
            r = frozenset((n.a[0],))
        elif n.k == 'S': r = frozenset(('#S',))
        elif n.k == 'I': r = frozenset(('#I',))
        for x in kids(n): r = r | syms(x)
        n._sy = r
    return n._sy

def rebuild(n, f):
    """n with children mapped by f (binders must be handled by the caller)"""
    k = n.k
    if k in ('K', 'V'): return n
    if k == 'A': return add(K(n.a[0]), *[scale(c, f(t)) for t, c in n.a[1]])
    if k == 'M': return mul(*[powi(f(t), e) for t, e in n.a])
    if k == 'I':
        c = f(n.a[0])
        if c is TRUE: return f(n.a[1])
        if c is FALSE: return f(n.a[2])
        return ite(c, f(n.a[1]), f(n.a[2]))
    if k == 'F': return reapp(n.a[0], tuple(f(x) for x in n.a[1]), n.s)
    if k == 'LE': return le0(f(n.a))
    if k == 'EQ': return eq(f(n.a), ZERO)
    if k == 'NOT': return not_(f(n.a))
    if k == 'AND': return and_(*[f(x) for x in n.a])
    if k == 'OR': return or_(*[f(x) for x in n.a])
    raise TypeError(k)

def reapp(name, args, s):
    if name == 'sqrt': return sqrt(args[0])
    if name == 'floor': return floor(args[0])
    if name == 'ipow': return ipow(args[0], args[1])
    if name == 'sin' : return sin(args[0])
    if name == 'cos' : return cos(args[0])
    return app(name, args, s)

def _signpos(x):
    """canonical sign: leading coefficient positive"""
    if x.k == 'A': return x.a[1][0][1] > 0
    if x.k == 'K': return x.a >= 0
    return True
def sin(x):
    if x is ZERO: return ZERO
    if not _signpos(x): return neg(app('sin', (neg(x),), 'R'))
    return app('sin', (x,), 'R')
def cos(x):
    if x is ZERO: return ONE
    if not _signpos(x): x = neg(x)
    return app('cos', (x,), 'R')

def subst(n, m, memo=None):
    """capture-avoiding substitution of variables"""
    if memo is None: memo = {}
    if not m: return n
    dom = frozenset(m)
    def go(n):
        if not (fv(n) & dom): return n
        r = memo.get(n)
        if r is not None: return r
        if n.k == 'V': r = m[n]
        elif n.k == 'S':
            v, lo, hi, b = n.a
            lo2, hi2 = go(lo), go(hi)
            m2 = {x: t for x, t in m.items() if x is not v and x in fv(b)}
            if m2:
                if any(v in fv(t) for t in m2.values()):
                    w = fresh('j', 'I')
                    b = subst(b, {v: w}); v = w
                b = subst(b, m2)
            r = summ(v, lo2, hi2, b)
        else: r = rebuild(n, go)
        memo[n] = r
        return r
    return go(n)

def replace(n, f):
    """bottom-up: f(node after children mapped) -> node; goes under binders"""
    memo = {}
    def go(n):
        r = memo.get(n)
        if r is not None: return r
        if n.k == 'S':
            v, lo, hi, b = n.a
            r = summ(v, go(lo), go(hi), go(b))
        elif n.k in ('K', 'V'): r = n
        else: r = rebuild(n, go)
        r = f(r)
        memo[n] = r
        return r
    return go(n)

def apps(n, names=None, acc=None, seen=None):
    """all application nodes (also under binders)"""
    if acc is None: acc = []; seen = set()
    if n in seen: return acc
    seen.add(n)
    if names is not None and not (syms(n) & names): return acc
    for x in kids(n): apps(x, names, acc, seen)
    if n.k == 'F' and (names is None or n.a[0] in names): acc.append(n)
    return acc

def show(n, d=0):
    if d > 12: return '…'
    k = n.k; g = lambda x: show(x, d + 1)
    if k == 'K': return str(n.a)
    if k == 'V': return n.a
    if k == 'A':
        p = [] if n.a[0] == 0 else [str(n.a[0])]
        for t, c in n.a[1]:
            p.append(g(t) if c == 1 else '%s*%s' % (c, g(t)))
        return '(' + ' + '.join(p) + ')'
    if k == 'M': return '*'.join(g(t) if e == 1 else '%s^%d' % (g(t), e) for t, e in n.a)
    if k == 'I': return 'ite(%s, %s, %s)' % tuple(map(g, n.a))
    if k == 'F': return n.a[0] + ('(' + ', '.join(map(g, n.a[1])) + ')' if n.a[1] else '')
    if k == 'LE': return g(n.a) + ' <= 0'
    if k == 'EQ': return g(n.a) + ' = 0'
    if k == 'NOT': return 'not(' + g(n.a) + ')'
    if k in ('AND', 'OR'): return '(' + (' & ' if k == 'AND' else ' | ').join(map(g, n.a)) + ')'
    if k == 'S': return 'Sum[%s=%s..%s)(%s)' % (n.a[0].a, g(n.a[1]), g(n.a[2]), g(n.a[3]))
    return '?'
