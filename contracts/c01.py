import numpy as np
from dv.ctx import contract
import gravity_toolkit.time
T = 'gravity_toolkit.time.'
gt = gravity_toolkit.time

@contract('a calendar month has the month number counted from January 2002', T + 'calendar_to_grace')
def number(ctx):
    y = ctx.int('year', 1900, 2200, draw=(1995, 2035)); m = ctx.int('month', 1, 12)
    g = gt.calendar_to_grace(y, month=m)
    ctx.eq(g, 12 * (y - 2002) + m, 'month number')

@contract('month number to calendar date and back', [T + 'calendar_to_grace', T + 'grace_to_calendar'])
def there_and_back(ctx):
    g = ctx.int('grace_month', -1200, 2400, draw=(-30, 300))
    y, m = gt.grace_to_calendar(g)
    ctx.check((m >= 1) & (m <= 12), 'calendar month between 1 and 12')
    ctx.eq(gt.calendar_to_grace(y, month=m), g, 'same month number')

@contract('calendar date to month number and back', [T + 'calendar_to_grace', T + 'grace_to_calendar'])
def back_and_there(ctx):
    y = ctx.int('year', 1900, 2200, draw=(1995, 2035)); m = ctx.int('month', 1, 12)
    yy, mm = gt.grace_to_calendar(gt.calendar_to_grace(y, month=m))
    ctx.eq(yy, y, 'same year'); ctx.eq(mm, m, 'same calendar month')

@contract('arrays of month numbers are converted element by element', [T + 'calendar_to_grace', T + 'grace_to_calendar'])
def arrays(ctx):
    n = ctx.int('n', 1, draw=(1, 6))
    g = ctx.arr('grace_month', (n,), kind='i', lo=-1200, hi=2400)
    y, m = gt.grace_to_calendar(g)
    ctx.shape(y, (n,)); ctx.shape(m, (n,))
    ctx.forall([(0, n)], lambda i: ctx.check((m[i] >= 1) & (m[i] <= 12), 'calendar month between 1 and 12'))
    ctx.forall([(0, n)], lambda i: ctx.eq(12 * (y[i] - 2002) + m[i], g[i], 'months since January 2002'))
    b = gt.calendar_to_grace(y, month=m)
    ctx.shape(b, (n,))
    ctx.forall([(0, n)], lambda i: ctx.eq(b[i], g[i], 'same month number'))

@contract('consecutive months have consecutive numbers across years', T + 'calendar_to_grace')
def consecutive(ctx):
    y = ctx.int('year', 1900, 2200, draw=(1995, 2035)); m = ctx.int('month', 1, 12)
    last = ctx.choice('december', [True, False])
    if last: m = 12
    else: ctx.assume(m < 12)
    y2 = y + 1 if last else y
    m2 = 1 if last else m + 1
    ctx.eq(gt.calendar_to_grace(y2, month=m2), gt.calendar_to_grace(y, month=m) + 1, 'next number')

@contract('a decimal date falls in the twelfth of its year', T + 'calendar_to_grace')
def decimal(ctx):
    y = ctx.int('year', 1900, 2200, draw=(1995, 2035)); m = ctx.int('month', 1, 12)
    f = ctx.real('fraction of the month', draw=(0.01, 0.99)); ctx.assume((f >= 0) & (f < 1))
    t = y + (m - 1 + f) / 12
    ctx.eq(gt.calendar_to_grace(t), 12 * (y - 2002) + m, 'month number')

@contract('arrays of decimal dates are converted element by element', T + 'calendar_to_grace')
def decimal_array(ctx):
    n = ctx.int('n', 1, draw=(1, 6))
    t = ctx.arr('t', (n,), draw=(1995.0, 2035.0))
    g = gt.calendar_to_grace(t)
    ctx.shape(g, (n,))
    # one twelfth of a year starts every month
    ctx.forall([(0, n)], lambda i: ctx.check((2002 + (g[i] - 1) / 12 <= t[i] + ctx.lit('1e-9')) & (t[i] < 2002 + g[i] / 12 + ctx.lit('1e-9')), 'the date is in the month'))
