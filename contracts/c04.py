import numpy as np
import datetime
from dv.ctx import contract
from contracts.common import day_number
import gravity_toolkit.time
gt = gravity_toolkit.time
T = 'gravity_toolkit.time.'

def instant(ctx, name):
    """any instant from 1583 to 2399 and its second count"""
    q = ctx.int(name + ' 400-year period', 3, 5); c = ctx.int(name + ' century', 0, 3); e = ctx.int(name + ' leap period', 0, 24)
    s = ctx.choice(name + ' year of the leap period', [0, 3])
    y = 400 * q + 100 * c + 4 * e + s
    ctx.assume((y >= 1700) & (y <= 2199))
    m = ctx.choice(name + ' month', [1, 2, 11])
    d = ctx.int(name + ' day', 1, 28); h = ctx.int(name + ' hour', 0, 23); mi = ctx.int(name + ' minute', 0, 59); s = ctx.int(name + ' second', 0, 59)
    sec = day_number(ctx, y, m, d) * 86400 + h * 3600 + mi * 60 + s
    return (y, m, d, h, mi, s), sec

UNIX = 719163 * 86400

@contract('seconds are counted from the epoch', T + 'convert_datetime', samples=80)
def seconds(ctx):
    f, sec = instant(ctx, 'date')
    r = gt.convert_datetime(np.datetime64(datetime.datetime(*f)))
    ctx.eq(r, sec - UNIX, 'seconds since 1970')

@contract('seconds are counted from a requested epoch', T + 'convert_datetime', samples=80)
def seconds_epoch(ctx):
    f, sec = instant(ctx, 'date'); g, sec2 = instant(ctx, 'epoch')
    r = gt.convert_datetime(np.datetime64(datetime.datetime(*f)), epoch=g)
    ctx.eq(r, sec - sec2, 'seconds since the epoch')

@contract('elapsed times are moved between epochs and scaled', T + 'convert_delta_time', samples=80)
def delta(ctx):
    g, s1 = instant(ctx, 'epoch 1'); h, s2 = instant(ctx, 'epoch 2')
    x = ctx.real('delta time', draw=(-1e9, 1e9)); k = ctx.real('scale', draw=(0.0, 2.0))
    r = gt.convert_delta_time(x, epoch1=g, epoch2=h, scale=k)
    ctx.eq(r, k * (x - (s2 - s1)), 'scaled seconds since the second epoch')

@contract('moving to another epoch and back restores elapsed times', T + 'convert_delta_time', samples=80)
def delta_back(ctx):
    g, s1 = instant(ctx, 'epoch 1'); h, s2 = instant(ctx, 'epoch 2')
    n = ctx.int('n', 1, draw=(1, 4))
    x = ctx.arr('delta time', (n,), draw=(-1e9, 1e9))
    r = gt.convert_delta_time(gt.convert_delta_time(x, epoch1=g, epoch2=h), epoch1=h, epoch2=g)
    ctx.shape(r, (n,))
    ctx.forall([(0, n)], lambda i: ctx.eq(r[i], x[i], 'restored'))

@contract('the named epochs are the instants they name', T + 'convert_delta_time', samples=4)
def names(ctx):
    for nm, f in (('_mjd_epoch', (1858, 11, 17, 0, 0, 0)), ('_ntp_epoch', (1900, 1, 1, 0, 0, 0)), ('_unix_epoch', (1970, 1, 1, 0, 0, 0)), ('_gps_epoch', (1980, 1, 6, 0, 0, 0)), ('_j2000_epoch', (2000, 1, 1, 12, 0, 0))):
        r = gt.convert_delta_time(0.0, epoch1=getattr(gt, nm), epoch2=f)
        ctx.eq(r, 0, nm)

UNITS = {'microseconds': '0.000001', 'microsecond': '0.000001', 'microsec': '0.000001', 'microsecs': '0.000001', 'milliseconds': '0.001', 'millisecond': '0.001', 'millisec': '0.001', 'millisecs': '0.001', 'msec': '0.001', 'msecs': '0.001', 'ms': '0.001',
         'seconds': '1', 'second': '1', 'sec': '1', 'secs': '1', 's': '1', 'minutes': '60', 'minute': '60', 'min': '60', 'mins': '60',
         'hours': '3600', 'hour': '3600', 'hr': '3600', 'hrs': '3600', 'h': '3600', 'day': '86400', 'days': '86400', 'd': '86400',
         'mon': '2592000', 'month': '2592000', 'months': '2592000', 'common_year': '31536000', 'common_years': '31536000', 'year': '31557600', 'years': '31557600'}

@contract('unit strings name their length in seconds and their epoch', [T + 'parse_date_string', T + 'split_date_string'], symbolic=False, bounded='date strings are parsed by dateutil; every unit name is enumerated, epochs are drawn', samples=150)
def unit_strings(ctx):
    u = ctx.choice('unit', sorted(UNITS))
    y = ctx.int('year', 1000, 9999, draw=(1800, 2100)); m = ctx.int('month', 1, 12); d = ctx.int('day', 1, 28); h = ctx.int('hour', 0, 23); mi = ctx.int('minute', 0, 59); s = ctx.int('second', 0, 59)
    sep = ctx.choice('separator', [' ', 'T'])
    case = ctx.choice('case', ['lower', 'upper'])
    uu = u.upper() if case == 'upper' else u
    txt = '%s since %04d-%02d-%02d%s%02d:%02d:%02d' % (uu, y, m, d, sep, h, mi, s)
    e, k = gt.parse_date_string(txt)
    ctx.check(list(e) == [y, m, d, h, mi, s], 'epoch')
    ctx.eq(k, float(UNITS[u]), 'seconds of the unit')
    e, k = gt.parse_date_string('%04d-%02d-%02d%s%02d:%02d:%02d' % (y, m, d, sep, h, mi, s))
    ctx.check(list(e) == [y, m, d, h, mi, s], 'epoch without a unit'); ctx.eq(k, 0.0, 'no unit')

@contract('every unit name is known with its length', T + 'parse_date_string', symbolic=False, bounded='exhaustive over the unit names', samples=1)
def all_units(ctx):
    for u, v in UNITS.items():
        e, k = gt.parse_date_string(u + ' since 2000-01-01T00:00:00')
        ctx.eq(k, float(v), 'seconds of ' + u)
    ctx.raises(ValueError, lambda: gt.parse_date_string('fortnights since 2000-01-01'), 'unknown units are refused')

@contract('time zones are removed', T + 'parse', symbolic=False, bounded='offsets are drawn', samples=40)
def zones(ctx):
    o = ctx.int('offset', -12, 14); h = ctx.int('hour', 0, 23); d = ctx.int('day', 2, 27)
    r = gt.parse('2010-05-%02dT%02d:00:00%s%02d:00' % (d, h, '-' if o < 0 else '+', abs(o)))
    ctx.check(r == datetime.datetime(2010, 5, d, h) - datetime.timedelta(hours=o), 'instant in UTC')
