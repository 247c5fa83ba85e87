"""C23 Combining and splitting date and time are inverse."""
from ..core import unit
from .. import contracts as K
from ..objs import any_fields, any_tz, make_dt, time_fields
from .c22 import report


def zone(c, p=''):
    """None, a constant zone, or any fixed offset."""
    k = c.choice(p + 'tz', (0, 1, 2))
    if k == 2:
        return any_tz(c, p)[0]
    return (None, c.m.dt.UTC)[k]


def parts(c, a, long, f, t, fold, tz):
    return c.all(type(a) is c.m.datetime, a.is_short == (not long),
                 c.eq(report(a, long, True), f + t + (fold,)),
                 c.eq(a.b_date, f), c.eq(a.b_time, t), a.tzinfo is tz)


def cases(env, tier):
    return [{'long': x, 'tz': k} for x in (0, 1) for k in (0, 1, 2)]


@unit('C23', 'combine', stubs=[K.is_leap], shards=cases,
      about='datetime.combine, with and without tzinfo')
def combine(c):
    long = c.bool('long')
    f, _ = any_fields(c, long=long)
    t = time_fields(c, hmax=24, smax=60)
    fold = c.int('fold', 0, 1)
    tz = zone(c)
    d = c.m.date(*f)
    u = c.m.time(*t, tz, fold=fold)
    k = c.choice('given', (0, 1, 2))
    if k == 0:
        a = c.m.datetime.combine(d, u)
    else:
        tz = zone(c, 'g') if k == 2 else None
        a = c.m.datetime.combine(d, u, tz)
    c.require('fields', parts(c, a, long, f, t, fold, tz), a)
    if k == 0:
        c.require('date', c.all(a.date() == d, c.eq(a.date().b_date, f)))
        c.require('timetz', a.timetz() == u)


@unit('C23', 'split', stubs=[K.is_leap], shards=cases,
      about='date(), time(), timetz() and combining them again')
def split(c):
    long = c.bool('long')
    f, _ = any_fields(c, long=long)
    t = time_fields(c, hmax=24, smax=60)
    fold = c.int('fold', 0, 1)
    tz = zone(c)
    a = make_dt(c, f, t, tz, fold)
    d, u, v = a.date(), a.time(), a.timetz()
    c.require('date', c.all(type(d) is c.m.date, d.is_short == (not long),
                            c.eq(report(d, long, False), f),
                            c.eq(d.b_date, f)), d)
    c.require('time', c.all(type(u) is c.m.time, c.eq(
        (u.hour, u.minute, u.second, u.microsecond, u.fold), t + (fold,)),
        u.tzinfo is None), u)
    c.require('timetz', c.all(type(v) is c.m.time, c.eq(
        (v.hour, v.minute, v.second, v.microsecond, v.fold), t + (fold,)),
        v.tzinfo is tz), v)
    b = c.m.datetime.combine(d, v)
    c.require('again', parts(c, b, long, f, t, fold, tz), b)
    c.require('again-naive', parts(c, c.m.datetime.combine(d, u, tz), long,
                                   f, t, fold, tz))
    c.require('unchanged', parts(c, a, long, f, t, fold, tz))
    c.require('equal', b == a)


@unit('C23', 'types', sym=False, samples=100,
      bounded='C23.types: wrong argument types are sampled')
def types(c):
    bad = c.choice('bad', (None, 3, 'x', (1, 1, 1)))
    _, e = c.exc(lambda: c.m.datetime.combine(bad, c.m.time(1)), Exception)
    c.require('date', isinstance(e, TypeError), e)
    _, e = c.exc(lambda: c.m.datetime.combine(c.m.date(1, 1, 1), bad),
                 Exception)
    c.require('time', isinstance(e, TypeError), e)
