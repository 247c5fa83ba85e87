"""C06 Short and long form of a date correspond one to one."""
from ..core import unit
from .. import contracts as K, env as E
from ..objs import long_fields


def split(y):
    k = (y + 360) // 361
    w = y - (k - 1) * 361 - 1
    return k, w // 19 + 1, w % 19 + 1


def all_years(env, tier, rng):
    return [{'y': y} for y in range(E.MINYEAR, E.MAXYEAR + 1)]


@unit('C06', 'long', sym=False, cases=all_years, samples=0,
      complete=('quick', 'thorough'),
      about='contract of long_date_from_short_date: every date')
def long(c):
    y = c.int('y', E.MINYEAR, E.MAXYEAR)
    bc = c.m.tdu
    for m in range(20):
        for d in range(1, K.mlen(c, y, m) + 1):
            r = bc.long_date_from_short_date((y, m, d), trim=True)
            c.require('long-form', r == split(y) + (m, d), (m, d, r))
    k, v, w = split(y)
    c.require('range', -5 <= k <= 4 and 1 <= v <= 19 and 1 <= w <= 19)


@unit('C06', 'short',
      about='short_date_from_long_date for every long form date')
def short(c):
    f, y = long_fields(c)
    m = c.int('m', 0, 19)
    d = c.int('d', 1, 19)
    c.assume(d <= K.mlen(c, y, m))
    r = c.m.tdu.short_date_from_long_date(f + (m, d), trim=True)
    c.require('short-form', c.eq(r, (y, m, d)), r)
    # exactly one long form: the split of y gives f again
    k, v, w = f
    c.require('unique', c.all((y + 360) // 361 == k,
                              (y - (k - 1) * 361 - 1) // 19 + 1 == v,
                              (y - (k - 1) * 361 - 1) % 19 + 1 == w))


def trimmed(c, t):
    """t without its trailing zeros, as the library trims it."""
    t = list(t)
    while t and bool(t[-1] == 0):
        t.pop()
    return tuple(t)


@unit('C06', 'short_time',
      about='short_date_from_long_date keeps every time of day')
def short_time(c):
    f, y = long_fields(c)
    m = c.int('m', 0, 19)
    d = c.int('d', 1, 19)
    t = (c.int('hh', 0, 23), c.int('mm', 0, 59), c.int('ss', 0, 59),
         c.int('us', 0, 999999))
    c.assume(d <= K.mlen(c, y, m))
    r = c.m.tdu.short_date_from_long_date(f + (m, d) + t)
    c.require('same', c.eq(r, (y, m, d) + t), r)
    r = c.m.tdu.short_date_from_long_date(f + (m, d) + t, trim=True)
    c.require('trimmed', c.eq(r, (y, m, d) + trimmed(c, t)), r)


YEARS = (-1842, -1841, -1083, -361, -360, -19, -18, -1, 0, 1, 2, 19, 20, 180,
         361, 362, 722, 1083, 1160, 1161)


def time_years(env, tier, rng):
    ys = YEARS + tuple(rng.randint(E.MINYEAR, E.MAXYEAR) for _ in range(12))
    return [{'i': YEARS.index(y) if y in YEARS else 0, 'y0': y,
             'm': rng.randint(1, 19), 'd': rng.randint(1, 19),
             'hh': rng.randint(0, 23), 'mm': rng.randint(0, 59),
             'ss': rng.randint(0, 59), 'us': rng.randint(0, 999999)}
            for y in ys]


@unit('C06', 'long_time', cases=time_years,
      about='long_date_from_short_date keeps every time of day (all times, '
            'months and days; in twenty years)')
def long_time(c):
    y = c.choice('i', YEARS)
    if not c.symbolic and (c.rng is not None or 'y0' in c.vals):
        y = c.int('y0', E.MINYEAR, E.MAXYEAR)
    m = c.int('m', 0, 19)
    d = c.int('d', 1, 19)
    t = (c.int('hh', 0, 23), c.int('mm', 0, 59), c.int('ss', 0, 59),
         c.int('us', 0, 999999))
    c.assume(d <= K.mlen(c, y, m))
    bc = c.m.tdu
    r = bc.long_date_from_short_date((y, m, d) + t)
    c.require('same', c.eq(r, split(y) + (m, d) + t), r)
    r = bc.long_date_from_short_date((y, m, d) + t, trim=True)
    c.require('trimmed', c.eq(r, split(y) + (m, d) + trimmed(c, t)), r)


@unit('C06', 'roundtrip', stubs=[K.long_form],
      about='long to short to long, and short to long to short')
def roundtrip(c):
    f, y = long_fields(c)
    m = c.int('m', 0, 19)
    d = c.int('d', 1, 19)
    c.assume(d <= K.mlen(c, y, m))
    bc = c.m.tdu
    s = bc.short_date_from_long_date(f + (m, d), trim=True)
    b = bc.long_date_from_short_date(s, trim=True)
    c.require('long-short-long', c.eq(b, f + (m, d)), b)
    c.require('short-long-short', c.eq(bc.short_date_from_long_date(
        b, trim=True), (y, m, d)))
