import io, os, pathlib
import numpy as np
from dv.ctx import contract
from contracts.common import R
from gravity_toolkit.read_love_numbers import read_love_numbers, load_love_numbers, love_number_formatter, love_numbers
import sys
def module(): return sys.modules['gravity_toolkit.read_love_numbers']
M = 'gravity_toolkit.read_love_numbers.'
FRAMES = ('CF', 'CL', 'CH', 'CM', 'CE')
N3 = ('hl', 'kl', 'll')

def alpha(frame, h, l):
    """Blewitt (2003): constant from the frame of the centre of mass of the solid Earth"""
    return {'CF': (h + 2 * l) / 3, 'CL': l, 'CH': h, 'CM': 1, 'CE': 0}[frame]

@contract('moving between frames takes one constant from the three numbers of degree one', M + 'love_numbers')
def transform(ctx):
    L = ctx.int('lmax', 1, draw=(1, 12))
    d = {k: ctx.arr(k, (L + 1,)) for k in N3}
    old = {k: ctx.snap(d[k]) for k in N3}
    fr = ctx.choice('frame', FRAMES); low = ctx.choice('case', [False, True])
    a = love_numbers().from_dict(d)
    ctx.check(a.lmax == L, 'maximum degree')
    b = a.transform(fr.lower() if low else fr)
    al = alpha(fr, old['hl'][1], old['ll'][1])
    for k in N3:
        v = getattr(b, k); ctx.shape(v, (L + 1,))
        ctx.eq(v[1], old[k][1] - al, 'degree one')
        ctx.forall(R(L + 1), lambda l: ctx.implies(l != 1, ctx.same(v[l], old[k][l])), 'other degrees unchanged')
    ctx.check(b.reference.upper() == fr, 'frame recorded')
    # the condition that defines the frame
    if fr == 'CF': ctx.eq(b.hl[1] + 2 * b.ll[1], 0, 'no mean displacement')
    if fr == 'CL': ctx.eq(b.ll[1], 0, 'no lateral displacement')
    if fr == 'CH': ctx.eq(b.hl[1], 0, 'no vertical displacement')
    if fr == 'CM': ctx.eq(b.kl[1], old['kl'][1] - 1, 'no potential of the whole Earth')

@contract('frames that do not exist are refused', M + 'love_numbers', symbolic=False, bounded='drawn tables and names')
def unknown(ctx):
    L = ctx.int('lmax', 1, draw=(1, 12))
    a = love_numbers().from_dict({k: ctx.arr(k, (L + 1,)) for k in N3})
    ctx.raises((Exception,), lambda: a.transform(ctx.choice('frame', ['CX', '', 'ITRF'])), 'refused')

@contract('every output format holds the same numbers', M + 'love_number_formatter')
def formats(ctx):
    L = ctx.int('lmax', 0, draw=(0, 12))
    d = dict({k: ctx.arr(k, (L + 1,)) for k in N3}, l=np.arange(L + 1))
    f = ctx.choice('format', ['dict', 'tuple', 'class'])
    x = love_number_formatter(d, FORMAT=f)
    g = {'dict': lambda: [x[k] for k in N3], 'tuple': lambda: list(x), 'class': lambda: [x.hl, x.kl, x.ll]}[f]()
    ctx.check(len(g) == 3, 'three sets')
    for k, v in zip(N3, g): ctx.eq(v, d[k], k, tol=0)
    if f == 'class':
        ctx.check(x.lmax == L, 'maximum degree'); ctx.eq(x.l, np.arange(L + 1), 'degrees', tol=0)
        for k, v, w in zip(N3, x.to_tuple(), [y for y in x]): ctx.eq(v, d[k], k + ' of the tuple', tol=0); ctx.eq(w, d[k], k + ' iterated', tol=0)
        for k in N3: ctx.eq(x.to_dict()[k], d[k], k + ' of the dictionary', tol=0); ctx.eq(x[k], d[k], k + ' as an item', tol=0)

# ---- files
def text(r, v):
    """a number as written in tables of Love numbers"""
    k = r.randint(0, 4)
    if v == 0: return r.choice(['0.', '0.0', '0.0000000000D+00', '-0.0'])
    if k == 0: return '%.12f' % v
    if k == 1: return ('%.14E' % v).replace('E', 'D')
    if k == 2: return '%.14e' % v
    if k == 3: return ('%+.13f' % v)
    return repr(float(v))
def number(s): return float(s.replace('D', 'E'))

def table(r, top, gaps=True, inf=False, start=0):
    deg = [l for l in range(start, top + 1) if l <= 1 or l == top or not gaps or r.random() < 0.7]
    rows = []
    for l in deg + (['inf'] if inf else []):
        rows.append((l, {k: text(r, 0.0 if k != 'hl' and r.random() < 0.1 else r.uniform(-6, 6)) for k in N3}))
    return rows

def write(r, rows, columns, header):
    lines = ['header %d of degrees 99 h 3.5' % i for i in range(header)]
    for l, v in rows:
        lines.append('  '.join([' '] + [(str(l) if c == 'l' else v[c] if c in v else '%.3f' % r.uniform(-2, 2)) for c in columns]) + r.choice(['', ' ']))
    return '\n'.join(lines) + r.choice(['', '\n'])

def expected(rows, L, inf=100000):
    known = {(inf if l == 'inf' else l): {k: number(v[k]) for k in N3} for l, v in rows}
    out = {k: np.zeros(L + 1) for k in N3}
    if not any(l <= L for l in known): return out
    ls = sorted(l for l in known if l <= L); last = (inf if rows[-1][0] == 'inf' else rows[-1][0])
    for k in N3:
        for l in range(L + 1):
            if l in known: out[k][l] = known[l][k]
            elif l > last: out[k][l] = 2 * out[k][l - 1] - out[k][l - 2]
            elif l < ls[0]: out[k][l] = known[ls[0]][k]
            elif l > ls[-1]: out[k][l] = known[ls[-1]][k]
            else:
                a = max(x for x in ls if x < l); b = min(x for x in ls if x > l)
                out[k][l] = known[a][k] + (known[b][k] - known[a][k]) * (l - a) / (b - a)
    return out

def compare(ctx, x, f, e, L, fr, label=''):
    if f == 'dict':
        g = [x[k] for k in N3]; ctx.eq(x['l'], np.arange(L + 1), 'degrees', tol=0)
    elif f == 'zip': g = [np.array(v) for v in zip(*x)]
    elif f == 'class': g = [x.hl, x.kl, x.ll]; ctx.check(x.lmax == L, 'maximum degree')
    else: g = list(x)
    al = alpha(fr, e['hl'][1], e['ll'][1]) if L else 0
    for k, v in zip(N3, g):
        ctx.shape(v, (L + 1,))
        w = e[k].copy()
        if L: w[1] -= al
        big = np.maximum.accumulate(np.abs(e[k])) + 1
        ctx.forall(R(L + 1), lambda l: ctx.eq(v[l], w[l], label + k, tol=1e-12, scale=big[l]))

@contract('tables are read to the values of their degrees', M + 'read_love_numbers', symbolic=False, bounded='drawn tables of up to 60 degrees', samples=150)
def read(ctx):
    r = ctx.rng
    top = r.randint(1, 60); inf = r.random() < 0.15
    rows = table(r, top, r.random() < 0.6, inf, r.choice([0, 0, 1]))
    cols = ['l', 'hl', 'kl', 'll'] + ['nl', 'nk'][:r.choice([0, 0, 2])]
    if r.random() < 0.5: r.shuffle(cols)
    head = r.randint(0, 4)
    L = r.choice([None, top, r.randint(0, top), r.randint(1, top), top + r.randint(1, 20)])
    if inf and L is None: L = top
    fr = r.choice(FRAMES); f = r.choice(['dict', 'tuple', 'zip', 'class'])
    s = write(r, rows, cols, head)
    n = top if L is None else L
    e = expected(rows, n)
    kw = {} if L is None else {'LMAX': L}
    name = os.path.join(ctx.tmpdir(), 'love.dat')
    with open(name, 'w') as fid: fid.write(s)
    how = r.choice(['path', 'str', 'buffer'])
    src = {'path': pathlib.Path(name), 'str': name, 'buffer': io.BytesIO(s.encode('utf8'))}[how]
    # formats of outputs and frames in either case
    x = read_love_numbers(src, HEADER=head, COLUMNS=cols, REFERENCE=r.choice([fr, fr.lower()]), FORMAT=f, **kw)
    compare(ctx, x, f, e, n, fr)
    ctx.raises((Exception,), lambda: read_love_numbers(name, HEADER=head, COLUMNS=cols, REFERENCE='XX'), 'frame refused') if n else None
    ctx.raises((FileNotFoundError,), lambda: read_love_numbers(name + '.missing'), 'missing file')

def infinite(ctx):
    r = ctx.rng; top = r.randint(2, 30)
    rows = table(r, top, True, True)
    s = write(r, rows, ['l', 'hl', 'kl', 'll'], 2)
    old = module()._default_max_degree
    x = read_love_numbers(io.BytesIO(s.encode('utf8')), FORMAT='dict')
    compare(ctx, x, 'dict', expected(rows, old, old), old, 'CE')
infinite = contract('a last row of infinite degree is kept at the largest degree', M + 'read_love_numbers', symbolic=False, bounded='drawn tables', samples=2)(infinite)

SHIPPED = {0: ('love_numbers', 2, ['l', 'hl', 'kl', 'll'], 'PREM'), 1: ('Load_Love2_CE.dat', 3, ['l', 'hl', 'll', 'kl'], 'PREM'), 2: ('PREM-LLNs-truncated.dat', 1, ['l', 'hl', 'll', 'kl'], 'PREM'),
           3: ('PREMhard-LLNs-truncated.dat', 1, ['l', 'hl', 'll', 'kl'], 'PREMhard'), 4: ('PREMsoft-LLNs-truncated.dat', 1, ['l', 'hl', 'll', 'kl'], 'PREMsoft')}
@contract('the shipped sets are read from their tables', M + 'load_love_numbers', symbolic=False, bounded='the shipped tables for drawn degrees and frames', samples=120)
def shipped(ctx):
    r = ctx.rng; k = r.randint(0, 4); L = r.choice([1, 60, r.randint(2, 690), 696, 700, r.randint(690, 1100)])
    fr = r.choice(FRAMES); f = r.choice(['dict', 'tuple', 'zip', 'class'])
    name, head, cols, model = SHIPPED[k]
    path = os.path.join(os.path.dirname(module().__file__), 'data', name)
    rows = []
    for line in open(path).read().splitlines()[head:]:
        t = line.split(); rows.append((int(t[0]), dict(zip(cols[1:], t[1:4]))))
    kw = {'REFERENCE': fr} if r.random() < 0.8 else {}
    if not kw: fr = 'CF'
    x = load_love_numbers(L, LOVE_NUMBERS=k, FORMAT=f, **kw)
    if f == 'class':
        ctx.check(x.filename == name, 'file name'); ctx.check(x.reference == fr, 'frame'); ctx.check(x.model == model, 'model')
    compare(ctx, x, f, expected(rows, L), L, fr)
    ctx.raises((ValueError,), lambda: load_love_numbers(L, LOVE_NUMBERS=r.choice([-1, 5, 9])), 'unknown set')
