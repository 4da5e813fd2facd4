import numpy as np
from itertools import combinations
from dv.ctx import contract
import gravity_toolkit.time
gt = gravity_toolkit.time
T = 'gravity_toolkit.time.adjust_months'
B = 'np.unique with inverse and counts is outside the verifier; '

@contract('series without repeated months are returned unchanged', T, symbolic=False, bounded=B + 'drawn increasing series of up to 40 months', samples=150)
def distinct(ctx):
    n = ctx.int('n', 1, 40, draw=(1, 12))
    g = np.cumsum(ctx.arr('steps', (n,), kind='i', lo=1, hi=4)) + ctx.int('start', 0, 250)
    ctx.check(np.array_equal(gt.adjust_months(g), g), 'unchanged')
    ctx.check(np.ndim(gt.adjust_months(int(g[0]))) == 0 and gt.adjust_months(int(g[0])) == g[0], 'a single month')

def windows():
    """increasing true months: every pattern of presence in a window of six"""
    for k in range(2, 7):
        for c in combinations(range(6), k): yield c

def judge(ctx, true, seen, label):
    p = list(seen)
    r = np.atleast_1d(gt.adjust_months(np.array(seen)))
    ctx.check(len(r) == len(p), label + ': length')
    ctx.check(all(abs(int(a) - b) <= 1 for a, b in zip(r, p)), label + ': no month moves by more than one (%s -> %s)' % (p, r))
    ctx.check(all(r[i] < r[i + 1] for i in range(len(r) - 1)), label + ': strictly increasing (%s -> %s)' % (p, list(map(int, r))))
    ctx.check(all(int(a) == b for a, b in zip(r, p) if p.count(b) == 1), label + ': months that occur once are kept')

@contract('a month counted twice is separated into neighbouring months', T, symbolic=False, bounded=B + 'exhaustive over all presence patterns of six consecutive months with one shifted epoch', samples=1)
def pairs(ctx):
    for base in (2, 110, 150, 250):
        for c in windows():
            true = [base + x for x in c]
            for j in range(len(true)):
                for s in (-1, 1):
                    seen = list(true); seen[j] += s
                    # the shifted epoch shares its month with its neighbour
                    if seen.count(seen[j]) != 2: continue
                    if seen != sorted(seen): continue
                    judge(ctx, true, seen, 'one shifted epoch')

@contract('the documented special months are restored', T, symbolic=False, bounded=B + 'exhaustive over where the series starts and ends', samples=1)
def special(ctx):
    grace = [m for m in range(4, 187) if m not in (6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156, 162, 166, 167, 172, 177, 178, 182)]
    fo = [m for m in range(197, 300) if m not in (200, 201)]
    full = grace + fo
    # Nov 2011 is centred in Oct 2011, May 2015 is centred in Apr 2015
    seen = [{119: 118, 161: 160}.get(m, m) for m in full]
    i0 = full.index(118); i1 = full.index(161)
    ends = [e for e in range(i0 + 2, len(full) + 1)]
    for a in range(0, i1):
        for e in list(range(i1 + 1, len(full) + 1, 17)) + [i1 + 1, i1 + 2, len(full)]:
            s, f = seen[a:e], full[a:e]
            if a == full.index(119): continue       # the series starts between the two epochs
            if a > full.index(119) and a == i1: continue
            r = np.atleast_1d(gt.adjust_months(np.array(s)))
            if a == full.index(161): continue
            ctx.check([int(x) for x in r] == f, 'series from %d to %d' % (f[0], f[-1]))

@contract('which neighbouring month a repeated month takes', T, symbolic=False, bounded=B + 'exhaustive over the gaps of up to four months before and after a repeated month, also at the ends of the series', samples=1)
def side(ctx):
    for m in (6, 100, 160, 230):
        for before in ([], [1], [2], [3], [4], [2, 1], [3, 1], [4, 3]):
            for after in ([], [1], [2], [3], [4], [2, 1], [1, 1], [1, 2]):
                if not before and not after: continue
                a = list(np.cumsum(np.array(before, dtype=int)[::-1])); b = list(np.cumsum(np.array(after, dtype=int)))
                pre = [m - int(x) for x in a][::-1]; post = [m + int(x) for x in b]
                if m - 1 in pre and m + 1 in post: continue          # no room
                r = [int(x) for x in np.atleast_1d(gt.adjust_months(np.array(pre + [m, m] + post)))]
                if m - 1 in pre: want = [m, m + 1]
                elif m - 2 in pre or m + 1 in post or not post: want = [m - 1, m]
                else: want = [m, m + 1]
                ctx.check(r == pre + want + post, 'sides of %s' % (pre + [m, m] + post))
