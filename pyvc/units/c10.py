"""C10 Datetime arithmetic is exact to the microsecond."""
from ..core import unit
from .. import contracts as K
from ..objs import any_datetime, spec_us, DAY, any_tz
from .c09 import any_td

STUBS = [K.is_leap, K.abstract_ord, K.ymd2ord, K.ord2ymd, K.long_form]


def outside_gap(c, u):
    n = u // DAY
    c.assume(c.any(n < K.GAP_ORD[0], n > K.GAP_ORD[1]))
    return n


def tz_of(c):
    return (None, c.m.dt.BADI)[c.bool('aware')]


def split_us(c, b):
    g = b._short_from_long_form()[:3]
    return spec_us(c, g, (b.hour, b.minute, b.second, b.microsecond))


@unit('C10', 'add', stubs=STUBS, about='datetime + timedelta', tl=240)
def add(c):
    tz = tz_of(c)
    a, f, t = any_datetime(c, tz=tz)
    td = any_td(c)
    c.known('KF-ORD', K.fudge(c, f[0]))
    us = td // c.m.timedelta(microseconds=1)
    u = spec_us(c, f, t) + us
    n = outside_gap(c, u)
    b, e = c.exc(lambda: a + td, OverflowError)
    inside = bool(c.all(n >= K.ORD1, n <= K.MAXORD))
    c.require('overflow-iff-outside', (e is None) == inside, (b, e))
    if e is None:
        c.require('type', type(b) is type(a))
        c.require('form', b.is_short == a.is_short)
        c.require('tz', b.tzinfo is tz)
        c.require('range', c.all(b.hour >= 0, b.hour <= 23, b.minute >= 0,
                                 b.minute <= 59, b.second >= 0,
                                 b.second <= 59, b.microsecond >= 0,
                                 b.microsecond <= 999999))
        c.require('moved', split_us(c, b) == u, b)


@unit('C10', 'sub', stubs=STUBS, about='datetime - timedelta', tl=240)
def sub(c):
    tz = tz_of(c)
    a, f, t = any_datetime(c, tz=tz)
    td = any_td(c)
    c.known('KF-ORD', K.fudge(c, f[0]))
    u = spec_us(c, f, t) - td // c.m.timedelta(microseconds=1)
    n = outside_gap(c, u)
    b, e = c.exc(lambda: a - td, OverflowError)
    inside = bool(c.all(n >= K.ORD1, n <= K.MAXORD))
    c.require('overflow-iff-outside', (e is None) == inside, (b, e))
    if e is None:
        c.require('form', b.is_short == a.is_short)
        c.require('tz', b.tzinfo is tz)
        c.require('moved', split_us(c, b) == u, b)


@unit('C10', 'difference', stubs=[K.is_leap, K.abstract_ord, K.ymd2ord],
      about='datetime - datetime of the same tzinfo')
def difference(c):
    tz = tz_of(c)
    a, f, t = any_datetime(c, 'a', tz=tz, hmax=24)
    b, g, u = any_datetime(c, 'b', tz=tz, hmax=24)
    c.known('KF-ORD', K.fudge(c, f[0]))
    c.known('KF-ORD', K.fudge(c, g[0]))
    r = a - b
    c.require('microseconds', r == c.m.timedelta(
        microseconds=spec_us(c, f, t) - spec_us(c, g, u)), r)


@unit('C10', 'inverse', stubs=STUBS, tl=240,
      about='(a + d) - a == d and (a + d) - d == a')
def inverse(c):
    tz = tz_of(c)
    a, f, t = any_datetime(c, tz=tz)
    td = any_td(c)
    us = td // c.m.timedelta(microseconds=1)
    u = spec_us(c, f, t)
    outside_gap(c, u)
    n = outside_gap(c, u + us)
    c.assume(c.all(n >= K.ORD1, n <= K.MAXORD))
    c.known('KF-ORD', K.fudge(c, f[0]))
    b = a + td
    c.known('KF-ORD', K.fudge(c, b._short_from_long_form()[0]))
    c.require('difference', b - a == td, (b, td))
    r = b - td
    c.require('back', c.all(c.eq(r.b_date, a.b_date),
                            c.eq(r.b_time, a.b_time)), r)
