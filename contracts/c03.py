import numpy as np
from dv.ctx import contract
from contracts.common import is_leap, CUM, DPM
import gravity_toolkit.time
gt = gravity_toolkit.time
T = 'gravity_toolkit.time.'

def cum(ctx, m, leap):
    """days before the month, m symbolic"""
    r = CUM[11] + ctx.ite(leap, 1, 0)
    for k in range(11, 0, -1):
        r = ctx.ite(m == k, CUM[k - 1] + (ctx.ite(leap, 1, 0) if k > 2 else 0), r)
    return r

def mlen(ctx, m, leap):
    r = DPM[11]
    for k in range(11, 0, -1):
        r = ctx.ite(m == k, DPM[k - 1] + (ctx.ite(leap, 1, 0) if k == 2 else 0), r)
    return r

def setup(ctx):
    n = ctx.int('n', 1, draw=(1, 5))
    y = ctx.arr('year', (n,), kind='i', lo=1583, hi=3999)
    m = ctx.arr('month', (n,), kind='i', lo=1, hi=12)
    return n, y, m

def ylen(ctx, y): return ctx.ite(is_leap(ctx, y), 366, 365)

@contract('decimal years are the elapsed fraction of the calendar year', T + 'convert_calendar_decimal', samples=150)
def dates(ctx):
    n, y, m = setup(ctx)
    d = ctx.arr('day', (n,), lo=1, hi=32); h = ctx.arr('hour', (n,), lo=0, hi=24)
    mi = ctx.arr('minute', (n,), lo=0, hi=60); s = ctx.arr('second', (n,), lo=0, hi=60)
    t = gt.convert_calendar_decimal(y, m, day=d, hour=h, minute=mi, second=s)
    ctx.shape(t, (n,))
    def one(i):
        L = is_leap(ctx, y[i])
        e = cum(ctx, m[i], L) + d[i] - 1 + h[i] / 24 + mi[i] / 1440 + s[i] / 86400
        ctx.eq((t[i] - y[i]) * ylen(ctx, y[i]), e, 'elapsed days', tol=1e-8)
    ctx.forall([(0, n)], one)

@contract('the clock defaults to midnight', T + 'convert_calendar_decimal', samples=60)
def midnight(ctx):
    n, y, m = setup(ctx)
    d = ctx.arr('day', (n,), kind='i', lo=1, hi=31)
    t = gt.convert_calendar_decimal(y, m, day=d)
    ctx.forall([(0, n)], lambda i: ctx.eq((t[i] - y[i]) * ylen(ctx, y[i]), cum(ctx, m[i], is_leap(ctx, y[i])) + d[i] - 1, 'elapsed days', tol=1e-8))

@contract('without a day the date is the middle of the month', T + 'convert_calendar_decimal', samples=100)
def mid_month(ctx):
    n, y, m = setup(ctx)
    t = gt.convert_calendar_decimal(y, m)
    def one(i):
        L = is_leap(ctx, y[i])
        ctx.eq((t[i] - y[i]) * ylen(ctx, y[i]), cum(ctx, m[i], L) + mlen(ctx, m[i], L) / 2, 'elapsed days', tol=1e-8)
    ctx.forall([(0, n)], one)

@contract('a day of the year replaces the month and the day', T + 'convert_calendar_decimal', samples=100)
def day_of_year(ctx):
    n, y, m = setup(ctx)
    doy = ctx.arr('day of the year', (n,), lo=1, hi=367); h = ctx.arr('hour', (n,), lo=0, hi=24)
    t = gt.convert_calendar_decimal(y, m, DofY=doy, hour=h)
    ctx.forall([(0, n)], lambda i: ctx.eq((t[i] - y[i]) * ylen(ctx, y[i]), doy[i] - 1 + h[i] / 24, 'elapsed days', tol=1e-8))

@contract('a single date gives a series of one', T + 'convert_calendar_decimal', samples=100)
def single(ctx):
    y = ctx.int('year', 1583, 3999, draw=(1583, 2500)); m = ctx.int('month', 1, 12)
    d = ctx.real('day', 1, 32); h = ctx.real('hour', 0, 24)
    t = gt.convert_calendar_decimal(y, m, day=d, hour=h)
    ctx.shape(t, (1,))
    ctx.eq((t[0] - y) * ylen(ctx, y), cum(ctx, m, is_leap(ctx, y)) + d - 1 + h / 24, 'elapsed days', tol=1e-8)

@contract('later calendar dates have later decimal dates', T + 'convert_calendar_decimal', samples=100)
def increasing(ctx):
    y = ctx.int('year', 1583, 3998, draw=(1583, 2500)); m = ctx.int('month', 1, 12); d = ctx.int('day', 1, 31)
    last = ctx.choice('step', ['day', 'month', 'year'])
    L = is_leap(ctx, y)
    ml = mlen(ctx, m, L)
    ctx.assume(d <= ml)
    if last == 'day': ctx.assume(d < ml); y2, m2, d2 = y, m, d + 1
    elif last == 'month': ctx.assume((d == ml) & (m < 12)); y2, m2, d2 = y, m + 1, 1
    else: ctx.assume((d == ml) & (m == 12)); y2, m2, d2 = y + 1, 1, 1
    a = gt.convert_calendar_decimal(y, m, day=d, hour=23, minute=59, second=59)
    b = gt.convert_calendar_decimal(y2, m2, day=d2)
    ctx.check(a[0] < b[0], 'the next day is later')

@contract('the decimal date of a month falls in that month of the month numbering', [T + 'convert_calendar_decimal', T + 'calendar_to_grace'], samples=60)
def middle(ctx):
    y = ctx.int('year', 1900, 2200, draw=(1995, 2035)); m = ctx.int('month', 1, 12)
    t = gt.convert_calendar_decimal(y, m)
    g = gt.calendar_to_grace(t)
    ctx.eq(g[0], 12 * (y - 2002) + m, 'month number')
