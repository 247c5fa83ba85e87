"""C21 Converting between timezones preserves the instant."""
from ..core import unit
from .. import contracts as K
from ..objs import any_datetime, spec_us, DAY, any_tz
from .c10 import STUBS, split_us

S = STUBS + [K.cmp_key]


def inside(c, u):
    n = u // DAY
    c.assume(c.all(n >= K.ORD1, n <= K.MAXORD))
    c.assume(c.any(n < K.GAP_ORD[0], n > K.GAP_ORD[1]))


def zones(env, tier):
    return [{'long': x, 'to': k} for x in (0, 1) for k in (0, 1, 2, 3)]


def target(c):
    k = c.choice('to', (0, 1, 2, 3))
    if k == 0:
        return any_tz(c, 't')
    if k == 3:          # a named one
        n = c.int('toff', -DAY + 1, DAY - 1, special=(
            0, 3600 * 10 ** 6, -3600 * 10 ** 6))
        return c.m.timezone(c.m.timedelta(microseconds=n), 'Named'), n
    return (c.m.dt.UTC, 0) if k == 1 else (c.m.dt.BADI, 3.5 * 3600 * 10 ** 6)


def kept(c, b, f, a):
    return b.is_short == a.is_short


@unit('C21', 'convert', stubs=S, shards=zones, tl=240,
      about='astimezone to any fixed offset')
def convert(c):
    tz, off = any_tz(c, 'a')
    a, f, t = any_datetime(c, tz=tz, fold=c.int('fold', 0, 1))
    to, toff = target(c)
    toff = int(toff) if isinstance(toff, float) else toff
    c.known('KF-ORD', K.fudge(c, f[0]))
    u = spec_us(c, f, t) - off
    inside(c, u)
    inside(c, u + toff)
    x = a - c.m.timedelta(microseconds=off)
    c.known('KF-ORD', K.fudge(c, x._short_from_long_form()[0]))
    b = a.astimezone(to)
    y = b._short_from_long_form()[0]
    c.known('KF-ORD', K.fudge(c, y))
    c.require('tz', b.tzinfo is to)
    c.require('form', b.is_short == a.is_short)
    c.require('type', type(b) is type(a))
    c.require('local', split_us(c, b) == u + toff, b)
    c.require('range', c.all(b.hour >= 0, b.hour <= 23, b.minute >= 0,
                             b.minute <= 59, b.second >= 0, b.second <= 59,
                             b.microsecond >= 0, b.microsecond <= 999999))
    c.require('equal', c.all(b == a, c.no(b < a), c.no(b > a)))
    c.require('difference', b - a == c.m.timedelta(0))


@unit('C21', 'back', stubs=S, shards=zones, tl=240,
      about='astimezone there and back gives the original fields')
def back(c):
    tz, off = any_tz(c, 'a')
    a, f, t = any_datetime(c, tz=tz)
    to, toff = target(c)
    toff = int(toff) if isinstance(toff, float) else toff
    c.known('KF-ORD', K.fudge(c, f[0]))
    u = spec_us(c, f, t) - off
    inside(c, u + off)
    inside(c, u)
    inside(c, u + toff)
    x = a - c.m.timedelta(microseconds=off)
    c.known('KF-ORD', K.fudge(c, x._short_from_long_form()[0]))
    b = a.astimezone(to)
    c.known('KF-ORD', K.fudge(c, b._short_from_long_form()[0]))
    r = b.astimezone(tz)
    c.require('fields', c.all(c.eq(r.b_date, a.b_date),
                              c.eq(r.b_time, a.b_time)), r)
    c.require('tz', r.tzinfo is tz)


@unit('C21', 'same', stubs=S, about='astimezone to the same timezone')
def same(c):
    tz, off = any_tz(c, 'a')
    fold = c.int('fold', 0, 1)
    a, f, t = any_datetime(c, tz=tz, fold=fold)
    b = a.astimezone(tz)
    c.require('fields', c.all(c.eq(b.b_date, a.b_date),
                              c.eq(b.b_time, a.b_time), b.fold == fold,
                              b.tzinfo is tz), b)


@unit('C21', 'fromutc', stubs=S, tl=240,
      about='timezone.fromutc adds the offset, and refuses other zones')
def fromutc(c):
    tz, off = any_tz(c, 'a')
    other = c.bool('other')
    a, f, t = any_datetime(c, tz=c.m.dt.BADI if other else tz)
    c.known('KF-ORD', K.fudge(c, f[0]))
    u = spec_us(c, f, t) + off
    inside(c, u)
    b, e = c.exc(lambda: tz.fromutc(a), ValueError)
    c.require('own-zone', (e is not None) == other, e)
    if e is None:
        c.require('moved', split_us(c, b) == u)
        c.require('tz', b.tzinfo is tz)
