"""Symbolic civil dates: an assumed contract for datetime.datetime, numpy.datetime64
and numpy.timedelta64 (proleptic Gregorian day count, exact seconds)."""
import datetime as _dt
import numpy as _np
from fractions import Fraction
from . import terms as t, sym
from .sym import S, SArr, N_, W, Unsupported
K = t.K
_CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)

def days_term(y, m, d):
    """proleptic Gregorian day count (0001-01-01 is 1), y, m, d terms"""
    y, m, d = N_(y), N_(m), N_(d)
    z = t.sub(y, t.ONE)
    n = t.add(t.scale(Fraction(365), z), t.idiv(z, K(4)), t.neg(t.idiv(z, K(100))), t.idiv(z, K(400)), d)
    leap = t.and_(t.eq(t.mod(y, K(4)), t.ZERO), t.or_(t.ne(t.mod(y, K(100)), t.ZERO), t.eq(t.mod(y, K(400)), t.ZERO)))
    if m.k == 'K': cum = K(_CUM[int(m.a) - 1])
    else:
        cum = K(_CUM[11])
        for i in range(10, -1, -1): cum = t.ite(t.eq(m, K(i + 1)), K(_CUM[i]), cum)
    return t.add(n, cum, t.ite(t.and_(leap, t.lt(K(2), m)), t.ONE, t.ZERO))

class DT:
    """an instant: seconds since 0000-12-31"""
    def __init__(self, sec): self.sec = sec
    def __sub__(self, o):
        if isinstance(o, DT): return TD(t.sub(self.sec, o.sec))
        if isinstance(o, TD): return DT(t.sub(self.sec, o.sec))
        return NotImplemented
    def __add__(self, o):
        if isinstance(o, TD): return DT(t.add(self.sec, o.sec))
        return NotImplemented
    def __rsub__(self, o): return as_dt(o) - self
class TD:
    def __init__(self, sec): self.sec = sec
    def __truediv__(self, o):
        if isinstance(o, TD): return W(t.div(self.sec, o.sec))
        return TD(t.div(self.sec, N_(o)))
    def __mul__(self, o): return TD(t.mul(self.sec, N_(o)))
    __rmul__ = __mul__

UNIT = {'s': 1, 'D': 86400, 'h': 3600, 'm': 60, 'ms': Fraction(1, 1000), 'us': Fraction(1, 10**6), 'ns': Fraction(1, 10**9)}

def make(y, m=1, d=1, h=0, mi=0, s=0, us=0):
    return DT(t.add(t.scale(Fraction(86400), days_term(y, m, d)), t.scale(Fraction(3600), N_(h)), t.scale(Fraction(60), N_(mi)), N_(s), t.scale(Fraction(1, 10**6), N_(us))))

def as_dt(x):
    if isinstance(x, DT): return x
    if isinstance(x, _dt.datetime): return make(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond)
    if isinstance(x, (str, _np.datetime64)):
        return as_dt(_np.datetime64(x).astype('M8[us]').item())
    raise Unsupported('datetime64 of %s' % type(x).__name__)

def datetime64(x, unit=None): return as_dt(x)
def timedelta64(n, unit='s'):
    if unit not in UNIT: raise Unsupported('timedelta64 unit ' + unit)
    return TD(t.mul(N_(n), K(Fraction(UNIT[unit]))))

class _DateTimeMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (_dt.datetime, DT))
class datetime(metaclass=_DateTimeMeta):
    def __new__(cls, *a, **k):
        if all(isinstance(x, (int, _np.integer)) for x in list(a) + list(k.values())): return _dt.datetime(*a, **k)
        if any(x is None for x in a): raise TypeError('an integer is required')
        return make(*a, **k)
    strptime = _dt.datetime.strptime; now = _dt.datetime.now; utcnow = _dt.datetime.utcnow
    fromordinal = _dt.datetime.fromordinal; fromisoformat = _dt.datetime.fromisoformat
class Mod:
    datetime = datetime; timedelta = _dt.timedelta; timezone = _dt.timezone; date = _dt.date; MINYEAR = 1; MAXYEAR = 9999
MOD = Mod()
