"""C13 ISO formatting and parsing are inverse."""
from ..core import unit
from .. import contracts as K, env as E
from ..objs import any_fields, any_tz, make_dt, time_fields

STUBS = [K.is_leap, K.long_form]
CMP = [K.is_leap, K.abstract_ord, K.ymd2ord, K.long_form, K.cmp_key]


def longs(env, tier):
    return [{'long': x} for x in (0, 1)]


def signs(env, tier):
    return [{'long': x, 'neg': n} for x in (0, 1) for n in (0, 1)]


def half(c, y):
    """Split the years into those before 0 and the others."""
    n = c.int('neg', 0, 1)
    if c.symbolic:
        c.assume(y < 0 if n else y >= 0)


@unit('C13', 'date', stubs=STUBS, shards=signs, samples=800,
      about='date.fromisoformat(d.isoformat()) is d in short form, and the '
      'same date in long form')
def date(c):
    f, ymd = any_fields(c, long=c.bool('long'))
    half(c, ymd[0])
    a = c.m.date(*f)
    s = c.sstr(a.isoformat())
    b = c.m.date.fromisoformat(s)
    c.require('fields', c.all(b.is_short, c.eq(b.b_date, ymd)), b)
    l = c.m.date.fromisoformat(s, short=False)
    k, v, w, m, d = l.b_date
    c.require('long', c.all(
        l.is_short is False, (k - 1) * 361 + (v - 1) * 19 + w == ymd[0],
        m == ymd[1], d == ymd[2], v >= 1, v <= 19, w >= 1, w <= 19), l)
    if len(f) == 3:
        t = c.sstr(str(a)) if not c.symbolic else c.sstr(a.__str__())
        c.require('str', c.eq(c.m.date.fromisoformat(t).b_date, f), t)


@unit('C13', 'compact', stubs=STUBS, samples=400,
      about='YYYYMMDD denotes the date, years 0 to 1161')
def compact(c):
    y, m, d = K.date_fields(c, lo=0, known=False)
    b = c.m.date.fromisoformat(c.sstr(f'{y:04d}{m:02d}{d:02d}'))
    c.require('fields', c.eq(b.b_date, (y, m, d)), b)


@unit('C13', 'ordinal', stubs=STUBS, samples=400,
      about='YYYY-DDD and YYYYDDD denote the date, years 0 to 1161')
def ordinal(c):
    y, m, d = K.date_fields(c, lo=0, known=False)
    n = K.doy(c, y, m, d)
    b = c.m.date.fromisoformat(c.sstr(f'{y:04d}-{n:03d}'))
    c.require('fields', c.eq(b.b_date, (y, m, d)), b)
    b = c.m.date.fromisoformat(c.sstr(f'{y:04d}{n:03d}'))
    c.require('plain', c.eq(b.b_date, (y, m, d)), b)


def kinds(env, tier):
    return [{'tz': k, 'neg': n, 'long': x, 'frac': u} for k in (0, 1)
            for n in (0, 1) for x in (0, 1) for u in (0, 1)]


@unit('C13', 'datetime', stubs=STUBS, shards=kinds, samples=1500,
      about='datetime.fromisoformat(d.isoformat()) equals d: naive, or with '
      'an offset of whole minutes')
def datetime(c):
    f, ymd = any_fields(c, long=c.bool('long'))
    half(c, ymd[0])
    t = time_fields(c, hmax=24)
    if c.symbolic:
        c.assume(t[3] > 0 if c.bool('frac') else t[3] == 0)
        if c.run.eng.fixed['frac'] == 0:
            t = t[:3] + (0,)
    tz = None
    if c.bool('tz'):
        tz, off = any_tz(c, unit=60 * 10 ** 6)
    a = make_dt(c, f, t, tz)
    s = c.sstr(a.isoformat())
    b = c.m.datetime.fromisoformat(s)
    c.require('date', c.eq(b.b_date, ymd), (s, b))
    c.require('time', c.eq(b.b_time, t), (s, b))
    c.require('whole', c.all(*[isinstance(x, int) or c.symbolic
                               for x in b.b_date + b.b_time]), b)
    if tz is None:
        c.require('naive', b.tzinfo is None)
    else:
        c.require('offset', c.all(b.tzinfo is not None, b.utcoffset() ==
                                  c.m.timedelta(microseconds=off)), (s, b))
    c.require('fold', b.fold == 0)


@unit('C13', 'equal', stubs=CMP, shards=kinds, samples=1500,
      about='the parsed datetime compares equal, with either separator')
def equal(c):
    f, ymd = any_fields(c, long=c.bool('long'))
    half(c, ymd[0])
    t = time_fields(c, hmax=24)
    if c.symbolic:
        c.assume(t[3] > 0 if c.bool('frac') else t[3] == 0)
        if c.run.eng.fixed['frac'] == 0:
            t = t[:3] + (0,)
    tz = None
    if c.bool('tz'):
        tz = any_tz(c, unit=60 * 10 ** 6)[0]
    a = make_dt(c, f, t, tz)
    s = c.sstr(a.isoformat(sep=c.choice('sep', ('T', ' '))))
    c.require('equal', c.m.datetime.fromisoformat(s) == a, s)
    if len(f) == 3:
        t = c.sstr(str(a)) if not c.symbolic else c.sstr(a.__str__())
        c.require('str', c.m.datetime.fromisoformat(t) == a, t)
