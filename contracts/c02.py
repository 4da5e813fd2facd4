import numpy as np
import datetime
from dv.ctx import contract
from contracts.common import day_number, month_length, is_leap, DPM, CUM
import gravity_toolkit.time
gt = gravity_toolkit.time
T = 'gravity_toolkit.time.'
MJD0 = 678576      # day count of 1858-11-17
Y0, Y1 = 1583, 3999

def year(ctx):
    """any year from 1583 to 3999 as 400 q + 100 c + 4 e + s: a bijection"""
    q = ctx.int('400-year period', 3, 9, draw=(3, 6)); c = ctx.int('century', 0, 3); e = ctx.int('leap period', 0, 24)
    s = ctx.choice('year of the leap period', [0, 1, 2, 3])
    y = 400 * q + 100 * c + 4 * e + s
    ctx.assume((y >= Y0) & (y <= Y1))
    return y

def date(ctx):
    y = year(ctx)
    m = ctx.choice('month', [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
    d = ctx.int('day', 1, DPM[m - 1] + (1 if m == 2 else 0))
    ctx.assume(d <= month_length(ctx, y, m))
    return y, m, d

@contract('every year has its Gregorian month lengths', T + 'calendar_days', samples=150)
def lengths(ctx):
    y = ctx.int('year', 1, Y1, draw=(1500, 2600))
    d = gt.calendar_days(y)
    ctx.shape(d, (12,))
    for m in range(1, 13):
        ctx.eq(d[m - 1], month_length(ctx, y, m), 'days in month %d' % m)

@contract('calendar dates are counted in days from the modified Julian epoch', T + 'convert_calendar_dates', samples=600, budget=200)
def mjd(ctx):
    y, m, d = date(ctx)
    h = ctx.real('hour', 0, 24); mi = ctx.real('minute', 0, 60); s = ctx.real('second', 0, 60)
    r = gt.convert_calendar_dates(y, m, d, hour=h, minute=mi, second=s, epoch=(1858, 11, 17, 0, 0, 0))
    ctx.eq(r, day_number(ctx, y, m, d) - MJD0 + h / 24 + mi / 1440 + s / 86400, 'modified Julian day')

@contract('the day count is taken from the requested epoch and scaled', T + 'convert_calendar_dates', samples=200, budget=200)
def mjd_epoch(ctx):
    y = year(ctx); d = ctx.int('day', 1, 28)
    m = ctx.choice('month', [1, 3, 9])
    ep = ctx.choice('epoch', [(1992, 1, 1, 0, 0, 0), (2000, 1, 1, 12, 0, 0), (1970, 1, 1, 0, 0, 0), (1980, 1, 6, 0, 0, 0)])
    sc = ctx.choice('scale', [1, 24, 86400])
    r = gt.convert_calendar_dates(y, m, d, epoch=ep, scale=sc)
    e = day_number(ctx, ep[0], ep[1], ep[2]) * 24 + ep[3]
    ctx.eq(r * 24, (day_number(ctx, y, m, d) * 24 - e) * sc, 'scaled days since the epoch')

@contract('arrays of calendar dates are counted element by element', T + 'convert_calendar_dates')
def mjd_arrays(ctx):
    n = ctx.int('n', 1, draw=(1, 5))
    m = ctx.choice('month', [1, 2, 3, 7, 12])
    y = ctx.arr('year', (n,), kind='i', lo=Y0, hi=2500); d = ctx.arr('day', (n,), kind='i', lo=1, hi=28)
    r = gt.convert_calendar_dates(y, m, d, epoch=(1858, 11, 17, 0, 0, 0))
    ctx.shape(r, (n,))
    ctx.forall([(0, n)], lambda i: ctx.eq(r[i], day_number(ctx, y[i], m, d[i]) - MJD0, 'modified Julian day'))

def judge(ctx, y, m, d, f, r):
    """the fields name the same instant; checked as an instant because 24:00 is 0:00 to rounding"""
    if ctx.symbolic:
        ctx.eq(r['year'], y, 'year'); ctx.eq(r['month'], m, 'month'); ctx.eq(r['day'], d, 'day')
        ctx.check((r['hour'] >= 0) & (r['hour'] < 24) & (r['minute'] >= 0) & (r['minute'] < 60) & (r['second'] >= 0) & (r['second'] < 60), 'clock fields in range')
        ctx.eq(r['hour'] * 3600 + r['minute'] * 60 + r['second'], f * 86400, 'time of day')
    else:
        a = datetime.datetime(int(r['year']), int(r['month']), int(r['day'])).toordinal() * 86400.0 + r['hour'] * 3600.0 + r['minute'] * 60.0 + r['second']
        b = datetime.datetime(y, m, d).toordinal() * 86400.0 + f * 86400.0
        ctx.check(abs(a - b) < 2e-3, 'same instant')
        ctx.check(-1e-3 <= r['second'] < 60.01 and 0 <= r['minute'] <= 60 and 0 <= r['hour'] <= 24, 'clock fields in range')

@contract('Julian days name the calendar date they count', T + 'convert_julian', samples=600, budget=250, timeout=30)
def julian(ctx):
    y, m, d = date(ctx)
    f = ctx.real('fraction of the day', draw=(0.001, 0.999)); ctx.assume((f >= 0) & (f < 1))
    jd = day_number(ctx, y, m, d) - MJD0 + ctx.lit('2400000.5') + f
    r = gt.convert_julian(jd)
    judge(ctx, y, m, d, f, r)

@contract('calendar dates survive the conversion to Julian days and back', [T + 'convert_julian', T + 'convert_calendar_dates'], samples=400, budget=250, timeout=30)
def round_trip(ctx):
    y, m, d = date(ctx)
    h = ctx.int('hour', 0, 23); mi = ctx.int('minute', 0, 59)
    s = ctx.real('second', 0, draw=(0.1, 59.9)); ctx.assume(s < 60)
    mjd_ = gt.convert_calendar_dates(y, m, d, hour=h, minute=mi, second=s, epoch=(1858, 11, 17, 0, 0, 0))
    r = gt.convert_julian(np.squeeze(mjd_) + ctx.lit('2400000.5'))
    judge(ctx, y, m, d, h / 24 + mi / 1440 + s / 86400, r)

@contract('arrays of Julian days are converted element by element', T + 'convert_julian', samples=60)
def julian_arrays(ctx):
    n = ctx.int('n', 1, draw=(1, 5))
    jd = ctx.arr('jd', (n,), draw=(2299170.0, 2816787.0))
    r = gt.convert_julian(jd, format='tuple')
    def one(i):
        a = gt.convert_julian(jd[i], format='tuple')
        for k in range(6): ctx.eq(r[k][i], a[k], 'field %d' % k)
    ctx.forall([(0, n)], one)

@contract('Julian days of decimal years', T + 'calendar_to_julian', samples=100)
def decimal(ctx):
    y = year(ctx)
    f = ctx.real('fraction of the year', draw=(0.0, 0.999)); ctx.assume((f >= 0) & (f < 1))
    jd = gt.calendar_to_julian(y + f)
    n = ctx.ite(is_leap(ctx, y), 366, 365)
    ctx.eq(jd, day_number(ctx, y, 1, 1) - MJD0 + ctx.lit('2400000.5') + n * f, 'Julian day', tol=1e-11)
