"""Back ends: z3 (linear/nonlinear arithmetic, uninterpreted functions) and a
rational-function normaliser with case splitting and summation binders."""
import sys, os, time, itertools, math
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from fractions import Fraction
from . import terms as t
from .terms import TRUE, FALSE, ZERO, ONE, K

z3.set_param('timeout', 4000)
STATS = {'z3_calls': 0, 'z3_s': 0.0, 'ring': 0, 'z3': 0, 'split': 0}

# ---- recursive function definitions (from loops) -------------------------------
RECDEF = {}    # name -> (params(tuple of var nodes), body term)
_RECKEY = {}
def recdef(nm, params, body):
    """define a recursive function; an earlier one with the same definition is used instead"""
    memo = {}
    b = canon_sums(body, memo, {})
    m = {v: t.var('#p%d' % i, v.s) for i, v in enumerate(params)}
    b = t.replace(t.subst(b, m), lambda x: t.app('rec#self', x.a[1], x.s) if x.k == 'F' and x.a[0] == nm else x)
    key = (len(params), b)
    old = _RECKEY.get(key)
    if old is not None and old in RECDEF: return old
    _RECKEY[key] = nm
    RECDEF[nm] = (tuple(params), body)
    return nm

class Z:
    """translation to z3; sums become opaque constants/functions of their free vars"""
    def __init__(self):
        self.m = {}; self.opaque = False; self.side = []; self.f = {}
    def srt(self, s):
        return {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[s]
    def num(self, n, real):
        e = self.go(n)
        return z3.ToReal(e) if real and n.s == 'I' else e
    def go(self, n):
        r = self.m.get(n)
        if r is not None: return r
        k = n.k
        if k == 'K':
            if n.s == 'B': r = z3.BoolVal(n.a)
            elif n.s == 'I': r = z3.IntVal(int(n.a))
            else: r = z3.RealVal(str(n.a))
        elif k == 'V':
            r = z3.Const(n.a, self.srt(n.s))
        elif k == 'A':
            real = n.s == 'R'
            c, it = n.a
            ps = []
            for a, q in it:
                e = self.num(a, real)
                if q == 1: ps.append(e)
                else: ps.append((z3.RealVal(str(q)) if real else z3.IntVal(int(q))) * e)
            if c != 0: ps.append(z3.RealVal(str(c)) if real else z3.IntVal(int(c)))
            r = z3.Sum(ps) if len(ps) > 1 else ps[0]
        elif k == 'M':
            real = n.s == 'R'
            num = []; den = []
            for a, e in n.a:
                x = self.num(a, real)
                (num if e > 0 else den).extend([x] * abs(e))
            r = z3.Product(num) if len(num) > 1 else (num[0] if num else z3.RealVal(1))
            if den:
                r = r / (z3.Product(den) if len(den) > 1 else den[0])
        elif k == 'I':
            real = n.s == 'R'
            r = z3.If(self.go(n.a[0]), self.num(n.a[1], real), self.num(n.a[2], real))
        elif k == 'F':
            name, args = n.a
            if name == 'floor':
                r = z3.ToInt(self.num(args[0], True))
            elif not args:
                r = z3.Const('c_' + name, self.srt(n.s))
                if name == 'pi':
                    self.side.append(z3.And(r > z3.RealVal('3.14159'), r < z3.RealVal('3.1416')))
            else:
                zs = [self.go(a) if a.s != 'I' or name in INTARGS(name) else self.go(a) for a in args]
                key = (name, tuple(a.s for a in args), n.s)
                f = self.f.get(key)
                if f is None:
                    f = z3.Function('%s_%s' % (name, ''.join(key[1])), *([z.sort() for z in zs] + [self.srt(n.s)]))
                    self.f[key] = f
                r = f(*zs)
                if name == 'sqrt':
                    x = self.num(args[0], True)
                    self.side.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
                    self.side.append(z3.Implies(x > 0, r > 0))
                elif name in ('sin', 'cos'):
                    self.side.append(z3.And(r >= -1, r <= 1))
                elif name == 'exp':
                    self.side.append(r > 0)
                elif name == 'ipow':
                    b = args[0]
                    if b.k == 'K' and b.a == -1:
                        # parity
                        ex = self.go(args[1])
                        self.side.append(r == z3.If(ex % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
                elif name in RECDEF:
                    self.opaque = True
        elif k == 'LE': r = self.go(n.a) <= 0
        elif k == 'EQ': r = self.go(n.a) == 0
        elif k == 'NOT': r = z3.Not(self.go(n.a))
        elif k == 'AND': r = z3.And([self.go(x) for x in n.a])
        elif k == 'OR': r = z3.Or([self.go(x) for x in n.a])
        elif k == 'S':
            self.opaque = True
            r = z3.Const('sum_%d' % n.id, self.srt(n.s))
        else: raise TypeError(k)
        self.m[n] = r
        return r

def INTARGS(name): return ()

# name -> (parameters, bound variables, body, extents): the application holds when the body does within the extents
QUANT = {}
def quant_facts(apps, cands):
    """instances of the meaning of quantified applications: a witness, and every candidate index"""
    out = []
    for x in apps:
        ps, js, body, dims, kind = QUANT[x.a[0]]
        m = dict(zip(ps, x.a[1]))
        dm = [t.subst(d, m) for d in dims]
        wit = tuple(t.app('%s.w%d' % (x.a[0], i), x.a[1], 'I') for i in range(len(js)))
        def inst(c):
            mm = dict(m); mm.update(zip(js, c))
            return t.and_(*[t.and_(t.le(ZERO, i), t.lt(i, d)) for i, d in zip(c, dm)]), t.subst(body, mm)
        if kind == 'any':
            r, b = inst(wit)
            out.append(t.implies(x, t.and_(r, b)))
        else:
            r, b = inst(wit)
            out.append(t.implies(t.and_(*[t.lt(ZERO, d) for d in dm]), t.and_(r, t.eq(x, b))))
        ws = [t.app('%s.w%d' % (y.a[0], i), y.a[1], 'I') for y in apps if y is not x for i in range(len(QUANT[y.a[0]][1]))]
        for c in itertools.islice(itertools.product(list(cands) + ws, repeat=len(js)), 60):
            r, b = inst(c)
            if kind == 'any': out.append(t.implies(t.and_(r, b), x))
            else: out.append(t.implies(r, t.le(b, x) if kind == 'max' else t.le(x, b)))
    return out

class Ctx:
    """a set of hypotheses with an incremental solver"""
    cache = {}
    def __init__(self, hyps):
        self.h = tuple(hyps)
        self.z = Z()
        self.s = z3.Solver()
        self.nside = 0
        for h in self.h: self.s.add(self.z.go(h))
        self.qk = (frozenset(), frozenset())
        if QUANT:
            for f in self.quant(self.h): self.s.add(self.z.go(f))
        self._side()
    def quant(self, ns, upd=True):
        """facts of the quantified applications in the hypotheses and ns that are not there yet"""
        names = frozenset(QUANT)
        ap, cv = self.qk
        for n in ns:
            if t.syms(n) & names: ap = ap | frozenset(x for x in t.apps(n, names) if not (t.fv(x) - t.fv(n)))
        if not ap: return []
        for n in ns: cv = cv | frozenset(w for w in t.fv(n) if w.s == 'I' and '!' in w.a)
        if upd and len(ns) and (ap, cv) == self.qk: return []
        if upd: self.qk = (ap, cv)
        return quant_facts(sorted(ap, key=lambda x: x.id), sorted(cv, key=lambda x: x.id))
    def _side(self):
        while self.nside < len(self.z.side):
            self.s.add(self.z.side[self.nside]); self.nside += 1
    @classmethod
    def get(cls, hyps):
        key = tuple(sorted({h for h in hyps if h is not TRUE}, key=lambda x: x.id))
        c = cls.cache.get(key)
        if c is None:
            if len(cls.cache) > 400: cls.cache.clear()
            c = cls.cache[key] = cls(key)
            c.memo = {}
        return c
    def check(self, g, timeout=1500):
        """'proved' | 'refuted' (with self.model) | 'unknown' for hyps |- g"""
        if g is TRUE: return 'proved'
        if g in self.h: return 'proved'
        k = (g, timeout)
        r = self.memo.get(k)
        if r is not None and r != 'refuted': return r
        if r == 'refuted' and not self.want_model: return r
        t0 = time.time(); STATS['z3_calls'] += 1
        self.s.push()
        zz = self.z.go(g)
        if QUANT:
            if self.qk[0] or t.syms(g) & frozenset(QUANT):
                ap, cv = self.qk
                for f in self.quant((g,) + self.h, upd=False): self.s.add(self.z.go(f))
        for x in self.z.side[self.nside:]: self.s.add(x)
        self.s.add(z3.Not(zz))
        self.s.set('timeout', timeout)
        try: r0 = self.s.check()
        except z3.Z3Exception: r0 = z3.unknown
        if r0 == z3.unsat: r = 'proved'
        elif r0 == z3.sat:
            r = 'refuted'; self.model = self.s.model() if self.want_model else None
        else: r = 'unknown'
        self.s.pop()
        STATS['z3_s'] += time.time() - t0
        # side conditions seen so far hold always
        self._side()
        self.memo[k] = r
        return r
    want_model = False

def holds(hyps, g, timeout=1500):
    if g is TRUE: return True
    if g is FALSE:
        return Ctx.get(hyps).check(FALSE, timeout) == 'proved'
    return Ctx.get(hyps).check(g, timeout) == 'proved'

def relevant(hyps, n):
    """keep all hypotheses (kept as a hook)"""
    return hyps

# ---- simplification under hypotheses ------------------------------------------------
def first_cond(n, bound=frozenset(), seen=None):
    """an ITE condition or floor-free boolean not mentioning bound variables"""
    if seen is None: seen = {}
    best = None
    def go(n, bound):
        nonlocal best
        key = (n, bound)
        if key in seen: return
        seen[key] = 1
        sy = t.syms(n)
        if '#I' not in sy: return
        if n.k == 'I':
            c = n.a[0]
            if not (t.fv(c) & bound):
                if '#I' not in t.syms(c):
                    sz = len(t.fv(c))
                    if best is None or sz < best[0]:
                        best = (sz, c)
                else:
                    b0 = best
                    go(c, bound)
                    if best is b0 and best is None: best = (10**6, c)
        if n.k == 'S':
            go(n.a[1], bound); go(n.a[2], bound)
            go(n.a[3], bound | {n.a[0]})
        else:
            for x in t.kids(n): go(x, bound)
    go(n, bound)
    return best[1] if best else None

def assume(n, c, val):
    """n with condition c replaced by val (under binders too)"""
    return t.replace(n, lambda x: (TRUE if val else FALSE) if x is c else
                     ((FALSE if val else TRUE) if x.s == 'B' and x is nc else x)) if (nc := t.not_(c)) is not None else n

def bound(n, acc=None, seen=None):
    """bound variables of a term"""
    if acc is None: acc, seen = set(), set()
    if n in seen: return acc
    seen.add(n)
    if n.k == 'S': acc.add(n.a[0])
    for x in t.kids(n): bound(x, acc, seen)
    return acc

def prune(n):
    """conditions decided by those around them, under binders too"""
    def under(x, atoms, val):
        for c in atoms:
            if '#I' in t.syms(x) and not (bound(x) & t.fv(c)): x = assume(x, c, val)
        return x
    def step(x):
        if x.k in ('OR', 'AND'):
            xs = list(x.a); val = x.k == 'AND'
            for c in x.a:
                if '#I' in t.syms(c): continue
                xs = [y if y is c else under(y, [c], val) for y in xs]
            return (t.and_ if val else t.or_)(*xs)
        if x.k == 'I':
            c, a, b = x.a
            a = under(a, c.a if c.k == 'AND' else [c], True); b = under(b, c.a if c.k == 'OR' else [c], False)
            return t.ite(c, a, b)
        return x
    return t.replace(n, step)

def atomconds(c):
    if c.k in ('AND', 'OR'):
        for x in c.a: yield from atomconds(x)
    elif c.k == 'NOT': yield from atomconds(c.a)
    else: yield c

# ---- polynomial normal form over canonical atoms ---------------------------------------
class TooBig(Exception): pass

class Norm:
    """rational-function normal form under hypotheses; atoms identified modulo z3"""
    def __init__(self, hyps, fuel=3, deadline=None):
        self.h = tuple(hyps); self.atoms = {}; self.deadline = deadline
        self.memo = {}
    def canon(self, name, args, s, node):
        """atom for an application: reuse one whose arguments are provably equal"""
        lst = self.atoms.setdefault((name, len(args)), [])
        for a0, n0 in lst:
            if a0 == args: return n0
        for a0, n0 in lst:
            if all(self.same(x, y) for x, y in zip(a0, args)): return n0
        lst.append((args, node))
        return node
    def same(self, x, y):
        if x is y: return True
        if x.s == 'B' or y.s == 'B': return holds(self.h, t.eq(x, y))
        d = t.sub(x, y)
        if d.k == 'K': return d.a == 0
        if x.s == 'I' and y.s == 'I':
            return holds(self.h, t.eq(x, y), 400)
        # real arguments: compare by normal form
        try:
            p = self.rat(d)
            return not p[0]
        except TooBig:
            return False
    def rat(self, n):
        """(num, den): polynomials as dict monomial->coef; monomial = tuple((atom,exp)..)"""
        r = self.memo.get(n)
        if r is not None: return r
        if self.deadline and time.time() > self.deadline: raise TooBig()
        k = n.k
        if k == 'K': r = (pconst(n.a), pconst(1))
        elif k == 'A':
            r = (pconst(n.a[0]), pconst(1))
            for x, c in n.a[1]:
                nn, dd = self.rat(x)
                r = radd(r, (pscale(nn, c), dd))
        elif k == 'M':
            r = (pconst(1), pconst(1))
            for x, e in n.a:
                nn, dd = self.rat(x)
                if e < 0: nn, dd = dd, nn
                for _ in range(abs(e)):
                    r = rmul(r, (nn, dd))
        else:
            a = self.atom(n)
            if isinstance(a, tuple): r = a
            elif a.k in ('K', 'A', 'M') and a is not n: r = self.rat(a)
            else: r = ({((a, 1),): Fraction(1)}, pconst(1))
        self.memo[n] = r
        return r
    def atom(self, n):
        if n.k == 'V': return n
        if n.k == 'F':
            name, args = n.a
            if name == 'sqrt':
                return self.sqrt(args[0])
            if name in ('sin', 'cos', 'exp', 'log') or args and any(a.s == 'R' for a in args):
                args = tuple(self.cterm(a) if a.s == 'R' else a for a in args)
                n = t.reapp(name, args, n.s)
                if n.k != 'F': return n
                name, args = n.a
            return self.canon(name, args, n.s, n)
        if n.k == 'S':
            return self.sum(n)
        if n.k == 'I':
            return self.canon('ite', n.a, n.s, n)
        return n
    def cterm(self, n):
        """term rebuilt from its normal form"""
        p, q = self.rat(n)
        return t.div(poly2term(p), poly2term(q))
    def sqrt(self, x):
        p, q = self.rat(x)
        p, q = cancel(p, q)
        arg = t.div(poly2term(p), poly2term(q))
        if arg.k == 'K' and arg.a <= 0: return t.sqrt(arg)
        # square root of the product of the irreducible factors of known sign
        c = Fraction(1); fs = []
        for poly, e0 in ((p, 1), (q, -1)):
            k, l = factors(poly)
            c *= k if e0 > 0 else 1 / k
            fs += [(f, e * e0) for f, e in l]
        out = ONE; rest = ONE; neg = c < 0
        c = abs(c)
        for f, e in fs:
            ft = poly2term(f)
            if holds(self.h, t.le(ZERO, ft), 400): pass
            elif holds(self.h, t.le(ft, ZERO), 400):
                ft = t.neg(ft)
                if e % 2: neg = not neg
            else:
                rest = t.mul(rest, t.powi(ft, e)); continue
            h, o = divmod(e, 2)
            out = t.mul(out, t.powi(ft, h))
            if o: out = t.mul(out, self.canon('sqrt', (ft,), 'R', t.sqrt(ft)))
        if neg: rest = t.neg(rest)
        if rest.k == 'K' and rest.a < 0: return self.canon('sqrt', (arg,), 'R', t.sqrt(arg))
        if rest is not ONE:
            # (of unknown sign together: the product of the others is positive where they are decided)
            out = t.mul(out, self.canon('sqrt', (rest,), 'R', t.sqrt(rest)))
        return t.mul(out, sqrtk(c))
    def sum(self, n):
        """normal form of a sum: linear over summands, constants pulled out"""
        v, lo, hi, body = n.a
        w = self.bvar(len([1]))
        w = t.fresh('k', 'I')
        body = t.subst(body, {v: w})
        hy = self.h + (t.le(lo, w), t.lt(w, hi))
        # empty or provably zero length
        if holds(self.h, t.le(hi, lo), 400): return ZERO
        # split on conditions over the bound variable
        body = simp(hy, body)
        c = first_cond(body)
        if c is not None and w in t.fv(c):
            return self.splitsum(w, lo, hi, body, c)
        nm = Norm(hy, deadline=self.deadline); nm.atoms = dict((k2, list(v2)) for k2, v2 in self.atoms.items())
        p, q = nm.rat(body)
        qi = poly2term(q)
        if w in t.fv(qi):
            # keep the quotient inside
            inner = [(t.div(poly2term({m: cc}), qi), ) for m, cc in p.items()]
            terms = [t.div(poly2term({m: cc}), qi) for m, cc in p.items()]
            qi = ONE
        else:
            terms = [poly2term({m: cc}) for m, cc in p.items()]
        out = ZERO
        for x in terms:
            co, mono = t._mono(x)
            outer = K(co); innr = ONE
            for a, e in mono.items():
                if w in t.fv(a): innr = t.mul(innr, t.powi(a, e))
                else: outer = t.mul(outer, t.powi(a, e))
            if innr is ONE:
                cnt = t.sub(hi, lo) if holds(self.h, t.le(lo, hi), 400) else t.maxn(ZERO, t.sub(hi, lo))
                out = t.add(out, t.mul(outer, cnt))
            else:
                out = t.add(out, t.mul(outer, self.swapped(w, lo, hi, innr) or self.sumatom(w, lo, hi, innr)))
        return t.div(out, qi)
    def swapped(self, w, lo, hi, x):
        """a double sum over independent ranges, in a fixed order"""
        fs = t._mono(x)[1]
        ss = [(a, e) for a, e in fs.items() if a.k == 'S']
        if len(ss) != 1 or ss[0][1] != 1: return None
        a = ss[0][0]; v, lo2, hi2, b = a.a
        if w in t.fv(lo2) or w in t.fv(hi2) or (lo2.id, hi2.id) >= (lo.id, hi.id): return None
        rest = t.div(x, a); v2 = t.fresh('k', 'I')
        self.nswap = getattr(self, 'nswap', 0) + 1
        if self.nswap > 20: return None
        return self.sum(t._mk('S', (v2, lo2, hi2, t.summ(w, lo, hi, t.mul(rest, t.subst(b, {v: v2})))), a.s))
    def bvar(self, d):
        return t.var('%%b%d' % d, 'I')
    def sumatom(self, w, lo, hi, body):
        lst = self.atoms.setdefault('S', [])
        for (lo0, hi0, w0, b0, a0) in lst:
            if not (self.same(t.sub(hi0, lo0), t.sub(hi, lo))): continue
            b1 = t.subst(b0, {w0: t.add(w, t.sub(lo0, lo))})
            if b1 is body: return a0
            hy = self.h + (t.le(lo, w), t.lt(w, hi))
            try:
                nm = Norm(hy, deadline=self.deadline)
                if not nm.rat(t.sub(b1, body))[0]: return a0
            except TooBig: pass
        # the same summand over a range that differs by a few terms at either end
        for (lo0, hi0, w0, b0, a0) in lst:
            dl, dh = self.cterm(t.sub(lo0, lo)), self.cterm(t.sub(hi, hi0))
            if dl.k != 'K' or dh.k != 'K' or abs(dl.a) > 3 or abs(dh.a) > 3: continue
            p = lo0 if dl.a > 0 else lo; q = hi0 if dh.a > 0 else hi
            if not holds(self.h, t.le(p, q), 400): continue
            b1 = t.subst(b0, {w0: w})
            if b1 is not body:
                hy = self.h + (t.le(t.minn(lo, lo0), w), t.lt(w, t.maxn(hi, hi0)))
                try:
                    if Norm(hy, deadline=self.deadline).rat(t.sub(b1, body))[0]: continue
                except TooBig: continue
            r = a0
            for d, at0 in ((int(dl.a), lo), (int(dh.a), hi0)):
                for i in range(abs(d)):
                    x = t.subst(body, {w: t.add(at0, K(i if d > 0 else -1 - i))})
                    r = t.add(r, x) if d > 0 else t.sub(r, x)
            return r
        a = t.summ(w, lo, hi, body)
        lst.append((lo, hi, w, body, a))
        return a
    def splitsum(self, w, lo, hi, body, c):
        """Sum over a body with a condition on the bound variable"""
        if c.k in ('AND', 'OR', 'NOT'):
            c = next((a for a in atomconds(c) if w in t.fv(a)), c)
        b1 = assume(body, c, True); b2 = assume(body, c, False)
        def part(lo2, hi2, b):
            if b is ZERO: return ZERO
            return t.summ(w, lo2, hi2, b)
        if c.k == 'EQ':
            sol = solve(c.a, w)
            if sol is not None:
                inr = t.and_(t.le(lo, sol), t.lt(sol, hi), isint(sol))
                whole = t.summ(w, lo, hi, b2)
                corr = t.sub(t.subst(b1, {w: sol}), t.subst(b2, {w: sol}))
                r = t.add(whole, t.ite(inr, corr, ZERO))
                return r if r.k != 'S' else self.sum(r)
        if c.k == 'LE':
            # w <= e or w >= e
            d, cf = t._lin(c.a)[1].get(w), None
            if d is not None and w not in t.fv(t.sub(c.a, t.scale(d, w))):
                rest = t.sub(c.a, t.scale(d, w))      # d*w + rest <= 0
                if d > 0:
                    e = t.add(t.floor(t.scale(-1 / d, rest)), ONE)   # w < e
                    mid = t.maxn(lo, t.minn(e, hi))
                    return t.add(part(lo, mid, b1), part(mid, hi, b2))
                e = -t._lin(ZERO)[0] if False else t.neg(t.floor(t.scale(1 / -d, t.neg(rest)))) if False else None
                # w >= rest/(-d): ceil
                q = t.scale(1 / (-d), rest)
                e = t.neg(t.floor(t.neg(q)))
                mid = t.maxn(lo, t.minn(e, hi))
                return t.add(part(lo, mid, b2), part(mid, hi, b1))
        # opaque
        return self.sumatom(w, lo, hi, body)

def isint(sol):
    return TRUE if sol.s == 'I' else t.eq(sol, t.floor(sol))

def solve(d, w):
    """w from the linear equation d = 0, or None"""
    c, l = t._lin(d)
    k = l.get(w)
    if k is None: return None
    rest = t.sub(d, t.scale(k, w))
    if w in t.fv(rest): return None
    return t.scale(-1 / k, rest)

_fac = {}
def factors(p):
    """(constant, [(factor, exponent)]) of a polynomial over the rationals"""
    key = tuple(sorted(p.items(), key=lambda x: _mkey(x[0])))
    r = _fac.get(key)
    if r is not None: return r
    if len(p) == 1:
        (m, k), = p.items()
        r = (k, [({((a, 1),): Fraction(1)}, e) for a, e in m])
    elif len(p) > 60: r = (Fraction(1), [(p, 1)])
    else:
        ats = sorted({a for m in p for a, _ in m}, key=lambda a: a.id)
        lo = {a: min(dict(m).get(a, 0) for m in p) for a in ats}
        from sympy.polys.rings import ring
        from sympy import QQ
        Rg, *g = ring(['x%d' % i for i in range(len(ats))], QQ)
        pos = {a: i for i, a in enumerate(ats)}
        d = {}
        for m, k in p.items():
            v = [0] * len(ats)
            for a, e in m: v[pos[a]] = e
            d[tuple(v[i] - min(lo[a], 0) for i, a in enumerate(ats))] = QQ(k.numerator, k.denominator)
        c, l = Rg.from_dict(d).factor_list()
        c = Fraction(int(c.numerator), int(c.denominator)); out = []
        for f, e in l:
            q = {tuple((a, x) for a, x in zip(ats, v) if x): Fraction(int(k.numerator), int(k.denominator)) for v, k in f.items()}
            # integer coefficients without common divisor
            den = 1
            for k in q.values(): den = den * k.denominator // math.gcd(den, k.denominator)
            num = 0
            for k in q.values(): num = math.gcd(num, (k * den).numerator)
            w = Fraction(num, den)
            q = {m: k / w for m, k in q.items()}
            c *= w ** e
            out.append((q, e))
        for a in ats:
            if lo[a] < 0: out.append(({((a, 1),): Fraction(1)}, lo[a]))
        r = (c, out)
    if len(_fac) > 20000: _fac.clear()
    _fac[key] = r
    return r
def sqrtk(c):
    """square root of a positive rational over square roots of primes"""
    n = c.numerator * c.denominator; out = Fraction(1, c.denominator); r = ONE
    d = 2
    while d * d <= n and d < 2000:
        e = 0
        while n % d == 0: n //= d; e += 1
        out *= d ** (e // 2)
        if e % 2: r = t.mul(r, t.sqrt(K(d)))
        d += 1
    h = math.isqrt(n)
    if h * h == n: out *= h
    else: r = t.mul(r, t.sqrt(K(n)))
    return t.mul(K(out), r)
def pconst(c): return {(): Fraction(c)} if c != 0 else {}
def pscale(p, c): return {m: k * c for m, k in p.items()} if c != 0 else {}
def padd(p, q):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, 0) + k
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r
def mmul(a, b):
    d = {}
    for x, e in a: d[x] = d.get(x, 0) + e
    for x, e in b: d[x] = d.get(x, 0) + e
    return d
LIMIT = 6000
def pmul(p, q):
    if len(p) * len(q) > LIMIT * 4: raise TooBig()
    r = {}
    for a, ka in p.items():
        for b, kb in q.items():
            if not a: terms_ = {b: ka * kb}
            elif not b: terms_ = {a: ka * kb}
            else: terms_ = mono_reduce(mmul(a, b), ka * kb)
            for m, k in terms_.items():
                v = r.get(m, 0) + k
                if v == 0: r.pop(m, None)
                else: r[m] = v
    if len(r) > LIMIT: raise TooBig()
    return r
_sq = {}
def mono_reduce(d, k):
    """sqrt(x)^2 -> x, cos^2 -> 1 - sin^2"""
    extra = None
    for a in list(d):
        e = d[a]
        if a.k == 'F' and e >= 2:
            if a.a[0] == 'sqrt':
                x = _poly_of(a.a[1][0])
                if x is None: continue
                h, r = divmod(e, 2)
                if r: d[a] = r
                else: del d[a]
                for _ in range(h):
                    extra = x if extra is None else pmul(extra, x)
            elif a.a[0] == 'cos':
                h, r = divmod(e, 2)
                if r: d[a] = r
                else: del d[a]
                s = t.app('sin', a.a[1], 'R')
                x = {(): Fraction(1), ((s, 2),): Fraction(-1)}
                for _ in range(h):
                    extra = x if extra is None else pmul(extra, x)
            elif a.a[0] == 'ipow' and a.a[1][0] is t.MONE:
                if e % 2: d[a] = 1
                else: del d[a]
    m = tuple(sorted(d.items(), key=lambda x: x[0].id))
    base = {m: Fraction(k)}
    return base if extra is None else pmul(base, extra)
def _poly_of(n):
    """polynomial of a sqrt argument (no quotient), or None"""
    try:
        p, q = Norm(()).rat(n) if False else _plain(n)
    except TooBig: return None
    if q != pconst(1): return None
    return p
def _plain(n):
    k = n.k
    if k == 'K': return (pconst(n.a), pconst(1))
    if k == 'A':
        r = (pconst(n.a[0]), pconst(1))
        for x, c in n.a[1]:
            a, b = _plain(x); r = radd(r, (pscale(a, c), b))
        return r
    if k == 'M':
        r = (pconst(1), pconst(1))
        for x, e in n.a:
            a, b = _plain(x)
            if e < 0: a, b = b, a
            for _ in range(abs(e)): r = rmul(r, (a, b))
        return r
    return ({((n, 1),): Fraction(1)}, pconst(1))
def radd(a, b):
    if not a[0]: return b
    if not b[0]: return a
    if a[1] == b[1]: return cancel(padd(a[0], b[0]), a[1])
    if pis1(a[1]): return cancel(padd(pmul(a[0], b[1]), b[0]), b[1])
    if pis1(b[1]): return cancel(padd(a[0], pmul(b[0], a[1])), a[1])
    # shared factors: try divide
    q = pdivexact(b[1], a[1])
    if q is not None: return cancel(padd(pmul(a[0], q), b[0]), b[1])
    q = pdivexact(a[1], b[1])
    if q is not None: return cancel(padd(a[0], pmul(b[0], q)), a[1])
    return cancel(padd(pmul(a[0], b[1]), pmul(b[0], a[1])), pmul(a[1], b[1]))
def rmul(a, b):
    if not a[0] or not b[0]: return ({}, pconst(1))
    n1, d2 = cancel(a[0], b[1]); n2, d1 = cancel(b[0], a[1])
    return cancel(pmul(n1, n2), pmul(d1, d2))
def pis1(p): return len(p) == 1 and p.get(()) == 1
def cancel(p, q):
    """cheap cancellation: monomial gcd, exact division, constant denominators"""
    if not p: return ({}, pconst(1))
    if len(q) == 1:
        (m, k), = q.items()
        if not m:
            return (p if k == 1 else pscale(p, 1 / k), pconst(1))
    # common monomial
    common = None
    for m in list(p) + list(q):
        d = dict(m)
        if common is None: common = d
        else: common = {a: min(e, d[a]) for a, e in common.items() if a in d}
        if not common: break
    if common:
        f = lambda m: tuple((a, e - common.get(a, 0)) for a, e in m if e - common.get(a, 0))
        p = {f(m): k for m, k in p.items()}; q = {f(m): k for m, k in q.items()}
    if len(q) >= 2 and len(p) >= 2:
        d = pdivexact(p, q)
        if d is not None: return (d, pconst(1))
        d = pdivexact(q, p)
        if d is not None: p, q = pconst(1), d
    if len(q) == 1:
        (m, k), = q.items()
        if k != 1: p = pscale(p, 1 / k); q = {m: Fraction(1)}
    else:
        k = q[min(q, key=_mkey)]
        if k != 1: p = pscale(p, 1 / k); q = pscale(q, 1 / k)
    return (p, q)
def _mkey(m): return (-sum(e for _, e in m), tuple((a.id, -e) for a, e in m))
def pdivexact(p, q):
    """exact multivariate division p/q or None"""
    if not q or len(q) > 60 or len(p) > 3000: return None
    if any(e < 0 for m in p for _, e in m): return None
    # lex order on atom ids
    ats = sorted({a for m in list(p) + list(q) for a, _ in m}, key=lambda a: a.id)
    # reductions (sqrt, cos) would break plain division
    def vec(m):
        d = dict(m); return tuple(d.get(a, 0) for a in ats)
    P = {vec(m): k for m, k in p.items()}; Q = {vec(m): k for m, k in q.items()}
    lq = max(Q); kq = Q[lq]
    out = {}; steps = 0
    while P:
        lp = max(P)
        e = tuple(x - y for x, y in zip(lp, lq))
        if min(e, default=0) < 0: return None
        k = P[lp] / kq
        out[e] = k
        for v, kk in Q.items():
            w = tuple(x + y for x, y in zip(v, e))
            z = P.get(w, 0) - k * kk
            if z == 0: P.pop(w, None)
            else: P[w] = z
        steps += 1
        if steps > 2000: return None
    return {tuple((a, x) for a, x in zip(ats, v) if x): k for v, k in out.items()}
def poly2term(p):
    return t.add(*[t.mul(K(k), *[t.powi(a, e) for a, e in m]) for m, k in p.items()]) if p else ZERO

# ---- simplify under hypotheses: resolve decided ITE conditions -----------------------
def simp(hyps, n, budget=40):
    """replace ITE conditions decided by hyps (outside and inside binders when they
    do not mention bound variables)"""
    seen = set()
    for _ in range(budget):
        cs = conds(n)
        cs = [c for c in cs if c not in seen]
        if not cs: return n
        ch = False
        for c in cs:
            seen.add(c)
            if holds(hyps, c, 400): n = assume(n, c, True); ch = True; break
            if holds(hyps, t.not_(c), 400): n = assume(n, c, False); ch = True; break
            if c.k in ('AND', 'OR'):
                # parts that are decided on their own
                m = n
                for a in set(atomconds(c)):
                    if a in seen: continue
                    seen.add(a)
                    if holds(hyps, a, 400): m = assume(m, a, True)
                    elif holds(hyps, t.not_(a), 400): m = assume(m, a, False)
                if m is not n: n = m; ch = True; break
        if not ch: return n
    return n
def simp_sums(hyps, n, memo=None):
    """summands simplified within their range (outermost sums)"""
    if not ('#S' in t.syms(n) and '#I' in t.syms(n)): return n
    if memo is None: memo = {}
    def go(n):
        r = memo.get(n)
        if r is not None: return r
        if not ('#S' in t.syms(n) and '#I' in t.syms(n)): r = n
        elif n.k == 'S':
            v, lo, hi, b = n.a
            w = t.fresh('k', 'I')
            b1 = t.subst(b, {v: w})
            hy = hyps + (t.le(lo, w), t.lt(w, hi))
            b2 = simp(hy, simp_sums(hy, b1))
            r = n if b2 is b1 else t.summ(w, lo, hi, b2)
        else: r = t.rebuild(n, go)
        memo[n] = r
        return r
    return go(n)
def height(n, memo):
    h = memo.get(n)
    if h is None:
        if '#S' not in t.syms(n): h = 0
        else: h = max([height(x, memo) for x in t.kids(n)] + [0]) + (1 if n.k == 'S' else 0)
        memo[n] = h
    return h
def canon_sums(n, memo, hm):
    """bound variables named by the height of their sum, so that renamed copies are one term"""
    r = memo.get(n)
    if r is not None: return r
    if '#S' not in t.syms(n): r = n
    elif n.k == 'S':
        v, lo, hi, b = n.a
        b = canon_sums(b, memo, hm); w = t.var('%%s%d' % (height(b, hm) + 1), 'I')
        r = t.summ(w, canon_sums(lo, memo, hm), canon_sums(hi, memo, hm), t.subst(b, {v: w}))
    else: r = t.rebuild(n, lambda x: canon_sums(x, memo, hm))
    memo[n] = r
    return r
def conds(n):
    out = []; seen = set()
    def go(n, bound):
        if (n, bound) in seen: return
        seen.add((n, bound))
        if '#I' not in t.syms(n): return
        if n.k == 'I' and not (t.fv(n.a[0]) & bound) and n.a[0] not in out: out.append(n.a[0])
        if n.k == 'S':
            go(n.a[1], bound); go(n.a[2], bound); go(n.a[3], bound | {n.a[0]})
        else:
            for x in t.kids(n): go(x, bound)
    go(n, frozenset())
    return out

# ---- the equality prover -----------------------------------------------------------------
class Result:
    def __init__(self, status, how='', model=None, zc=None, note='', exact=True):
        self.status = status; self.how = how; self.model = model; self.z = zc
        self.note = note; self.exact = exact

def opaque(n):
    sy = t.syms(n)
    return '#S' in sy or bool(sy & set(RECDEF)) or bool(sy & {'sin', 'cos', 'exp', 'log', 'pow', 'ipow', 'arctan2', 'tan', 'arcsin', 'arccos'})

def unfold(n, hyps, deadline):
    """one round of unfolding of recursive definitions that are not yet expanded"""
    names = frozenset(RECDEF)
    if not (t.syms(n) & names): return n
    def f(x):
        if x.k == 'F' and x.a[0] in names:
            ps, body = RECDEF[x.a[0]]
            return t.subst(body, dict(zip(ps, x.a[1])))
        return x
    # only the outermost occurrences, once, and of those the ones that no other one is defined from
    out = set(); seen = set()
    def coll(n):
        if n in seen or not (t.syms(n) & names): return
        seen.add(n)
        if n.k == 'F' and n.a[0] in names: out.add(n); return
        for x in t.kids(n): coll(x)
    coll(n)
    below = {x: set(t.apps(f(x), names)) for x in out}
    low = {x for x in out if any(y is not x and x in below[y] and y not in below[x] for y in out)}
    top = out - low or out
    memo = {}
    def go(n):
        if n in memo: return memo[n]
        if not (t.syms(n) & names): r = n
        elif n.k == 'F' and n.a[0] in names:
            r = f(n) if n in top else n
        elif n.k == 'S':
            v, lo, hi, b = n.a
            r = t.summ(v, go(lo), go(hi), go(b))
        else: r = t.rebuild(n, go)
        memo[n] = r
        return r
    return go(n)

def tidy(hyps):
    """conditions inside one hypothesis that another one decides"""
    flat = []
    for h in hyps:
        for x in (h.a if h.k == 'AND' else (h,)):
            if x is not TRUE and x not in flat: flat.append(x)
    if not any('#I' in t.syms(x) for x in flat): return hyps
    for _ in range(4):
        ch = False
        for i, x in enumerate(flat):
            if '#I' not in t.syms(x): continue
            inner = set()
            for c in conds(x): inner |= set(atomconds(c)) | {c}
            for y in flat:
                if y is x: continue
                p = y.a if y.k == 'NOT' else y
                if y in inner or p in inner or t.not_(y) in inner:
                    n = assume(x, y, True)
                    if n is not x: x = n; ch = True
            flat[i] = x
        out = []
        for h in flat:
            for x in (h.a if h.k == 'AND' else (h,)):
                if x is not TRUE and x not in out: out.append(x)
        flat = out
        if not ch: break
    return tuple(flat)

OPQ = {}
def opaque(n):
    """conditional values within sums, as applications of unspecified functions of their variables"""
    bound = set()
    def go(n, memo={}):
        if n.k == 'S': bound.add(n.a[0])
        for x in t.kids(n) if n.k != 'S' else n.a[1:]:
            if x not in memo: memo[x] = 1; go(x, memo)
    go(n, {})
    def f(x):
        if x.k != 'I' or not (t.fv(x.a[0]) & bound): return x
        vs = sorted(t.fv(x) & bound, key=lambda w: w.id)
        key = t.subst(x, {w: t.var('%%o%d' % i, w.s) for i, w in enumerate(vs)})
        nm = OPQ.setdefault(key, 'opq#%d' % len(OPQ))
        return t.app(nm, tuple(vs), x.s)
    return t.replace(n, f)

def prove(hyps, goal, fuel=2, timeout=20.0):
    """hyps |- goal"""
    hyps = tidy(tuple(h for h in hyps if h is not TRUE))
    if goal is TRUE: return Result('proved', 'syntactic')
    if goal.k == 'AND':
        last = None
        for g in goal.a:
            last = prove(hyps, g, fuel, timeout)
            if last.status != 'proved': return last
        return last
    dl = time.time() + timeout
    how = []
    if any('#S' in t.syms(x) and '#I' in t.syms(x) for x in hyps + (goal,)):
        memo = {}
        hyps = hyps + tuple(y for y in (simp_sums(hyps, x, memo) for x in hyps) if y not in hyps)
        goal = simp_sums(hyps, goal, memo)
        if goal is TRUE: return Result('proved', 'ring')
    if goal.k == 'EQ' and '#S' in t.syms(goal) and '#I' in t.syms(goal):
        # first with the conditional summands as unspecified functions
        g2 = opaque(goal)
        if g2 is not goal:
            r = _prove(hyps, g2, fuel, time.time() + timeout / 3, 0, how)
            if r is True: return Result('proved', 'ring')
            how = []; dl = time.time() + timeout
    if any('#S' in t.syms(x) for x in hyps) and any(a.s == 'B' or a.k == 'I' for a in (goal,)):
        memo = {}; hm = {}
        hyps = tuple(canon_sums(x, memo, hm) for x in hyps); goal = canon_sums(goal, memo, hm)
        if goal is TRUE or goal in hyps: return Result('proved', 'ring')
    r = _prove(hyps, goal, fuel, dl, 0, how)
    if r is True:
        h = 'ring' if 'ring' in how else ('z3' if 'z3' in how else 'syntactic')
        return Result('proved', '+'.join(sorted(set(how))) or 'syntactic')
    return r

def model_of(hyps, goal, timeout):
    c = Ctx(tuple(hyps)); c.memo = {}; c.want_model = True
    r = c.check(goal, timeout)
    return r, (c.model if r == 'refuted' else None), c.z

def _prove(hyps, goal, fuel, dl, depth, how):
    if goal is TRUE: return True
    if goal.k == 'OR':
        # assume negations of the other disjuncts; prove the "last" equality if any
        eqs = [x for x in goal.a if x.k == 'EQ']
        if eqs:
            rest = [x for x in goal.a if x is not eqs[0]]
            return _prove(hyps + tuple(t.not_(x) for x in rest), eqs[0], fuel, dl, depth, how)
    if goal.k == 'EQ':
        d = goal.a
        r = _eq0(hyps, d, fuel, dl, depth, how)
        return r
    r, m, z = model_of(hyps, goal, max(200, min(8000, int(1000 * (dl - time.time())))))
    if r == 'proved': how.append('z3'); return True
    if r == 'refuted':
        return Result('refuted', 'z3', m, z, exact=not any(opaque(x) for x in hyps + (goal,)))
    if fuel > 0 and (t.syms(goal) & frozenset(RECDEF)):
        return _prove(hyps, unfold(goal, hyps, dl), fuel - 1, dl, depth, how)
    # try splitting on ite conditions
    if depth < 10:
        c = first_cond(goal)
        if c is not None:
            for v in (True, False):
                h2 = hyps + ((c if v else t.not_(c)),)
                if holds(h2, FALSE, 400): continue
                r = _prove(h2, assume(goal, c, v), fuel, dl, depth + 1, how)
                if r is not True: return r
            return True
    return Result('unknown', 'z3', note=str(goal)[:300])

def _eq0(hyps, d, fuel, dl, depth, how):
    if d is ZERO: how.append('ring'); return True
    if d.k == 'K':
        if holds(hyps, FALSE, 2000): return True
        r, m, z = model_of(hyps, FALSE, 4000)
        return Result('refuted' if r == 'refuted' else 'unknown', 'const', m, z)
    if time.time() > dl: return Result('unknown', 'timeout', note='deadline')
    if depth > 24: return Result('unknown', 'depth')
    # 1. split on the conditions outside binders
    d = simp(hyps, d, 8) if '#I' in t.syms(d) else d
    c = first_cond(d) if '#I' in t.syms(d) else None
    if c is not None:
        cc = next(iter(atomconds(c)))
        bad = None
        for v in (True, False):
            a = cc if v else t.not_(cc)
            h2 = hyps + (a,)
            if holds(h2, FALSE, 400): continue
            STATS['split'] += 1
            d2 = assume(d, cc, v)
            if v and cc.k == 'EQ' and cc.a.k == 'F' and cc.a.a[0] == 'sqrt':
                # a square root is zero only where its argument is (of a negative number it is not a number)
                h2 = h2 + (t.eq(cc.a.a[1][0], ZERO),)
            eq = None
            if v and cc.k == 'EQ': eq = cc.a
            elif cc.k == 'LE' and cc.a.s == 'I':
                e = cc.a if v else t.sub(cc.a, ONE)
                if holds(h2, t.eq(e, ZERO), 300): eq = e
            if eq is not None:
                # an index pinned to a value
                for w in sorted(t.fv(eq), key=lambda w: w.id):
                    if w.k == 'V' and w.s == 'I' and w in t.fv(d2):
                        sol = solve(eq, w)
                        if sol is not None and w not in t.fv(sol) and (not t.fv(sol) or cc.k == 'LE') and isint(sol) is TRUE:
                            d2 = t.subst(d2, {w: sol}); break
            r = _eq0(h2, d2, fuel, dl, depth + 1, how)
            if r is not True:
                return r
        return True
    # 2. normal form
    note = ''
    try:
        nm = Norm(hyps, deadline=min(dl, time.time() + 10))
        p, q = nm.rat(d)
        if not p: how.append('ring'); return True
        d2 = poly2term(p)
        if '#I' in t.syms(d2) and first_cond(d2) is not None and d2 is not d:
            return _eq0(hyps, d2, fuel, dl, depth + 1, how)
        # sums may have produced new splittable sums
        if d2 is not d and '#S' in t.syms(d2) and depth < 12:
            r = None
            nm2 = Norm(hyps, deadline=min(dl, time.time() + 5))
            p2, q2 = nm2.rat(d2)
            if not p2: how.append('ring'); return True
            d2b = poly2term(p2)
            if d2b is not d2 and '#I' in t.syms(d2b) and first_cond(d2b) is not None:
                return _eq0(hyps, d2b, fuel, dl, depth + 1, how)
    except TooBig:
        d2 = d; note = 'too big'
    # conditions within the terms of sums
    if '#S' in t.syms(d2) and '#I' in t.syms(d2):
        d3 = prune(d2)
        if d3 is not d2: return _eq0(hyps, d3, fuel, dl, depth + 1, how)
    # 3. z3
    g = t.eq(d, ZERO)
    r, m, z = model_of(hyps, g, max(200, min(5000, int(1000 * (dl - time.time())))))
    if r == 'proved': how.append('z3'); return True
    # a factor that is zero by hypothesis
    if not note and 1 < len(p) <= 60:
        for h in hyps:
            if h.k == 'EQ':
                try: hp, hq = nm.rat(h.a)
                except TooBig: continue
                if 1 < len(hp) < 12 and pdivexact(p, hp) is not None: how.append('ring'); return True
        for f, _ in factors(p)[1]:
            if len(f) > 1 and f != p and len(f) < 12 and holds(hyps, t.eq(poly2term(f), ZERO), 600): how.append('ring'); return True
    # 4. unfold recursive definitions
    if fuel > 0 and (t.syms(d) & frozenset(RECDEF)):
        # in the normal form, where what cancels is gone
        return _eq0(hyps, unfold(d2, hyps, dl), fuel - 1, dl, depth + 1, how)
    if r == 'refuted':
        return Result('refuted', 'z3', m, z, note=str(d2)[:int(os.environ.get("DV_NOTE","300"))],
                      exact=not any(opaque(x) for x in hyps + (g,)))
    return Result('unknown', 'z3', note=note + str(d2)[:int(os.environ.get("DV_NOTE","300"))])
