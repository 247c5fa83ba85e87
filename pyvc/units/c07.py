"""C07 Constructors accept exactly the valid fields and report them back."""
from ..core import unit
from .. import contracts as K, env as E


def valid_date(c, long, head, m, d):
    """Whether the fields are a date; branches."""
    if long:
        k, v, w = head
        if not c.all(v >= 1, v <= 19, w >= 1, w <= 19):
            return False
        y = (k - 1) * 361 + (v - 1) * 19 + w
    else:
        y, = head
    if not c.all(y >= E.MINYEAR, y <= E.MAXYEAR, m >= 0, m <= 19, d >= 1,
                 d <= 19):
        return False
    return bool(d <= K.mlen(c, y, m))


def wild_head(c):
    long = c.bool('long')
    if long:
        head = (c.int('k', -40, 40, special=(-6, -5, 4, 5, 0)),
                c.int('v', -5, 25, special=(0, 1, 19, 20)),
                c.int('w', -5, 25, special=(0, 1, 19, 20)))
    else:
        head = (c.int('y', -5000, 5000, special=K.SPECIAL_YEARS + (
            -1843, -1844, 1162, 1163)),)
    return long, head


@unit('C07', 'date', stubs=[K.is_leap], about='date() for all integer fields')
def date(c):
    long, head = wild_head(c)
    m = c.int('m', -5, 25, special=(-1, 0, 1, 18, 19, 20))
    d = c.int('d', -5, 25, special=(0, 1, 4, 5, 6, 19, 20))
    a, e = c.exc(lambda: c.m.date(*head, m, d), Exception)
    ok = valid_date(c, long, head, m, d)
    c.require('accepted-iff-valid', (e is None) == ok, (e, ok))
    if ok:
        c.require('short', a.is_short == (not long))
        c.require('fields', c.eq((a.month, a.day), (m, d)))
        c.require('head', c.eq(
            (a.kull_i_shay, a.vahid, a.year) if long else (a.year,), head))
        c.require('b_date', c.eq(a.b_date, head + (m, d)))


def wild_time(c):
    return (c.int('hh', -3, 30, special=(-1, 0, 23, 24, 25)),
            c.int('mm', -3, 70, special=(-1, 0, 59, 60)),
            c.int('ss', -3, 70, special=(-1, 0, 59, 60, 61)),
            c.int('us', -3, 1000010, special=(-1, 0, 999999, 10 ** 6)),
            c.int('fold', -3, 4, special=(0, 1)))


def valid_time(c, t):
    return bool(c.all(t[0] >= 0, t[0] <= 24, t[1] >= 0, t[1] <= 59,
                      t[2] >= 0, t[2] <= 60, t[3] >= 0, t[3] <= 999999,
                      t[4] >= 0, t[4] <= 1))


def any_tzinfo(c):
    i = c.choice('tz', (0, 1, 2, 3))
    return (None, c.m.dt.UTC, 'UTC', 3)[i], i < 2


@unit('C07', 'time', about='time() for all integer fields')
def time(c):
    t = wild_time(c)
    tz, tzok = any_tzinfo(c)
    a, e = c.exc(lambda: c.m.time(*t[:4], tz, fold=t[4]), Exception)
    ok = valid_time(c, t) and tzok
    c.require('accepted-iff-valid', (e is None) == ok, (e, ok))
    if ok:
        c.require('fields', c.eq((a.hour, a.minute, a.second, a.microsecond,
                                  a.fold), t))
        c.require('tz', a.tzinfo is tz)


@unit('C07', 'datetime', stubs=[K.is_leap],
      about='datetime() for all integer fields, with a valid date or a '
            'valid time')
def datetime(c):
    long, head = wild_head(c)
    m = c.int('m', -5, 25, special=(-1, 0, 1, 18, 19, 20))
    d = c.int('d', -5, 25, special=(0, 1, 4, 5, 6, 19, 20))
    t = wild_time(c)
    tz, tzok = any_tzinfo(c)
    f = head + (m, d) + (() if long else (None, None))
    a, e = c.exc(lambda: c.m.datetime(*f, *t[:4], tz, fold=t[4]), Exception)
    ok = valid_date(c, long, head, m, d) and valid_time(c, t) and tzok
    c.require('accepted-iff-valid', (e is None) == ok, (e, ok))
    if ok:
        c.require('short', a.is_short == (not long))
        c.require('fields', c.eq((a.month, a.day), (m, d)))
        c.require('head', c.eq(
            (a.kull_i_shay, a.vahid, a.year) if long else (a.year,), head))
        c.require('b_date', c.eq(a.b_date, head + (m, d)))
        c.require('time', c.eq((a.hour, a.minute, a.second, a.microsecond,
                                a.fold), t))
        c.require('b_time', c.eq(a.b_time, t[:4]))
        c.require('tz', a.tzinfo is tz)


@unit('C07', 'arity', sym=False, samples=60,
      bounded='C07.arity: missing and non-numeric fields are sampled')
def arity(c):
    n = c.choice('n', (0, 1, 2, 4))
    cls = c.m.datetime if c.bool('dt') else c.m.date
    _, e = c.exc(lambda: cls(*(1, 1, 1, 1, 1)[:n]), Exception)
    c.require('too-few-fields', e is not None)
    i = c.choice('i', (0, 1, 2))
    bad = c.choice('bad', ('x', [], 1j, 'xxxx', (1,), {}))
    f = [1, 1, 1]
    f[i] = bad
    _, e = c.exc(lambda: cls(*f), Exception)
    c.require('not-a-number', e is not None, f)
