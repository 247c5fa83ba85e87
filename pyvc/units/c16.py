"""C16 Times of day and fractions of a day convert consistently."""
from ..core import unit
from .c06 import trimmed  # noqa: F401

NS = 1e-9


def hms(c, days=0):
    return (c.int('hh', 0, 24, special=(0, 23, 24)),
            c.int('mm', 0, 59, special=(0, 59)),
            c.int('ss', 0, 59, special=(0, 59)),
            c.int('us', 0, 999999, special=(0, 1, 999999)))


@unit('C16', 'to_fraction',
      about='_decimal_day_from_hms of whole fields: exact to a nanosecond')
def to_fraction(c):
    h, m, s, u = hms(c)
    f = c.m.tdu._decimal_day_from_hms(h, m, s, u)
    e = f * 86400 - (h * 3600 + m * 60 + s) - u / 1e6
    c.require('exact', c.all(e <= NS, e >= -NS), f)
    c.require('range', c.all(f >= 0, f < 25 / 24 + 1e-9), f)


@unit('C16', 'to_fraction_float',
      about='_decimal_day_from_hms of a fractional second')
def to_fraction_float(c):
    h, m, _, _ = hms(c)
    s = c.float('s', 0, 60, special=(.5, 59.999999, 1e-6))
    c.assume(s < 60)
    f = c.m.tdu._decimal_day_from_hms(h, m, s)
    e = f * 86400 - (h * 3600 + m * 60) - s
    c.require('exact', c.all(e <= NS, e >= -NS), f)


FRACS = dict(special=(0, .5, .25, 1 - 1e-9, 1 - 2e-8, 1 - 3e-8, 1e-9, 1e-8,
                      1 / 24, 2 / 24, 1 / 1440, 59 / 1440, 1 - 2.0 ** -53))


@unit('C16', 'from_fraction', shards=lambda env, tier: [{'us': 0}, {'us': 1}],
      samples=4000,
      about='_hms_from_decimal_day of every fraction of a day')
def from_fraction(c):
    f = c.float('f', 0, 1 - 2.0 ** -53, **FRACS)
    us = c.bool('us')
    r = c.m.tdu._hms_from_decimal_day(f, us=us)
    c.require('length', len(r) == (4 if us else 3), r)
    h, m, s = r[:3]
    c.require('hour', c.all(h >= 0, h <= 24), r)
    c.require('minute', c.all(m >= 0, m <= 59), r)
    c.require('second', c.all(s >= 0, s <= 60), r)
    t = h * 3600 + m * 60 + s
    if us:
        c.require('microsecond', c.all(r[3] >= 0, r[3] <= 999999), r)
        t = t + r[3] / 1e6
    e = t - f * 86400
    c.require('total', c.all(e <= .004, e >= -.004), r)


@unit('C16', 'whole_seconds',
      about='_seconds_from_dhms and _dhms_from_seconds of whole fields')
def whole_seconds(c):
    d = c.int('days', 0, 1)
    h = c.int('hh', 0, 23, special=(0, 23))
    m = c.int('mm', 0, 59, special=(0, 59))
    s = c.int('ss', 0, 59, special=(0, 59))
    t = c.m.tdu._seconds_from_dhms(d, h, m, s)
    c.require('seconds', t == d * 86400 + h * 3600 + m * 60 + s, t)
    c.require('back', c.eq(c.m.tdu._dhms_from_seconds(t), (d, h, m, s)), t)
    c.require('back-us', c.eq(c.m.tdu._dhms_from_seconds(t, us=True),
                              (d, h, m, s, 0)), t)


@unit('C16', 'micro_seconds',
      about='_seconds_from_dhms and _dhms_from_seconds with microseconds')
def micro_seconds(c):
    d = c.int('days', 0, 1)
    h = c.int('hh', 0, 23, special=(0, 23))
    m = c.int('mm', 0, 59, special=(0, 59))
    s = c.int('ss', 0, 59, special=(0, 59))
    u = c.int('us', 0, 999999, special=(0, 1, 999999))
    t = c.m.tdu._seconds_from_dhms(d, h, m, s, u)
    e = t - (d * 86400 + h * 3600 + m * 60 + s) - u / 1e6
    c.require('seconds', c.all(e <= NS, e >= -NS), t)
    r = c.m.tdu._dhms_from_seconds(t, us=True)
    c.require('back', c.eq(r, (d, h, m, s, u)), r)


def kinds(env, tier):
    return [{'us': x, 'whole': w, 'quarters': q} for x in (0, 1)
            for w in (0, 1) for q in (-48, -14, -1, 0, 1, 14, 23, 56)]


@unit('C16', 'from_seconds', shards=kinds, samples=3000,
      bounded='C16.from_seconds: numbers of seconds within a nanosecond of a '
              'whole second, but not whole, and zones other than eight '
              'are sampled',
      about='_dhms_from_seconds of any number of seconds below two days, '
            'in eight zones')
def from_seconds(c):
    us = c.bool('us')
    q = c.int('quarters', -48, 56, special=(0, 14))
    if c.symbolic:
        n = c.int('n', 0, 172799)
        t = n + (0 if c.bool('whole') else c.float('f', 1e-9, 1 - 1e-9))
    else:
        t = c.float('t', 0, 172800, special=(
            86400, 86399.9999999, 59.9999999, 3599.9999999, 1e-7,
            172799.9999999, 3600 - 5e-13, 86400 - 1.5e-11))
        if 'n' in c.vals:
            t = c.used['t'] = c.vals['n'] + c.vals.get('f', 0)
    c.assume(c.all(t + q * 900 >= 0, t + q * 900 <= 172800 - 1e-7))
    r = c.m.tdu._dhms_from_seconds(t, zone=q / 4, us=us)
    d, h, m, s = r[:4]
    c.require('range', c.all(d >= 0, d <= 1, h >= 0, h <= 23, m >= 0, m <= 59,
                             s >= 0, s < 60), r)
    x = d * 86400 + h * 3600 + m * 60 + s
    if us:
        c.require('microsecond', c.all(r[4] >= 0, r[4] <= 999999), r)
        x = x + r[4] / 1e6
    e = x - (t + q * 900)
    c.require('total', c.all(e <= 2e-6, e >= -2e-6), r)


@unit('C16', 'split_second', samples=2000,
      shards=lambda env, tier: [{'binade': i} for i in range(7)],
      about='_sec_microsec_from_seconds')
def split_second(c):
    if c.symbolic:
        k = c.choice('binade', range(7))
        s = (c.float('s', 0, 1) if k == 0 else
             c.float('s', 2 ** (k - 1), min(60, 2 ** k), grid=k - 53))
        c.assume(s < min(60, 2 ** k))
    else:
        s = c.float('s', 0, 60, special=(59.9999999, .9999999, 1e-7, 5, 59))
        c.assume(s < 60)
    r = c.m.tdu._sec_microsec_from_seconds(s)
    c.require('range', c.all(r[0] >= 0, r[0] <= 59, r[1] >= 0,
                             r[1] <= 999999), r)
    e = r[0] + r[1] / 1e6 - s
    c.require('total', c.all(e <= 1.1e-6, e >= -1.1e-6), r)
