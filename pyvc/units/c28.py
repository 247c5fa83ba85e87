"""C28 Naive timestamps round-trip through local datetimes."""
import copy

import z3

from ..core import unit
from .. import contracts as K, env as E, sym
from .c05 import badi_date, civil_noon, eras, ERAS, months, memoize, MEMO
from .c16 import FRACS

EPOCH = 2440585.5       # the Julian day of timestamp 0, as documented
T0, T1 = -62128800000, 32503680000
LAT, LON = 35.69435, 51.288701
CARRY = 1 - K.CARRY
TIMES = dict(special=(0, .5, 1e-9, 1 - 1e-7, 1 - 3e-8, .9966, .99999,
                      1 / 24, 59 / 1440, 23 / 24, 1 - 1 / 1440))


@unit('C28', 'hms', samples=2000, shards=lambda env, t: [{'us': 0}, {'us': 1}],
      about='_hms_from_decimal_day of every fraction up to 2 ms before the '
            '24th hour is full')
def hms(c):
    f = c.float('f', 0, CARRY, **FRACS)
    r = c.m.tdu._hms_from_decimal_day(f, us=bool(c.bool('us')))
    c.require('range', c.all(r[0] >= 0, r[0] <= 23, r[1] >= 0, r[1] <= 59,
                             r[2] >= 0, r[2] < 60), r)


def fixed(env, tier):
    return [dict(p, long=b) for p in months(env, tier) for b in (0, 1)]


@unit('C28', 'fields', stubs=[K.check_date, K.hms_of_fraction,
                              K.split_second, K.long_form],
      samples=1500, shards=fixed, tl=300,
      about='the naive datetime and the date of any moment of the day of any '
            'date, both forms')
def fields(c):
    y, m, d = badi_date(c)
    i = c.int('part', 0, 3)
    if c.symbolic:
        c.assume((m == 0) if i == 0 else (m == 19) if i == 3 else
                 c.all(m >= 1, m <= 9) if i == 1 else
                 c.all(m >= 10, m <= 18))
    D = civil_noon(c, y, m, d)
    c.hint(y, m, d, D)
    s = c.float('s', .05, .17)
    f = c.float('f', 0, 1 - 2.0 ** -40, **TIMES)
    short = not c.bool('long')
    c.known('KF-CARRY', f > CARRY)
    # by the contract of _utc_to_badi_time (C28.sunset)
    BC, name = c.m.BC, '_utc_to_badi_time'
    if name not in BC.__dict__:
        raise sym.Unsupported(name)
    old = BC.__dict__[name]
    setattr(BC, name, lambda self, jd, lat, lon: (D + s, f))
    try:
        a = c.m.datetime.fromtimestamp(0, short=short)
        b = c.m.date.fromtimestamp(0, short=short)
    finally:
        setattr(BC, name, old)
    c.require('form', a.is_short == short)
    c.require('date', c.eq(a._short_from_long_form()[:3], (y, m, d)),
              a.b_date)
    c.require('same-date', c.eq(a.b_date, b.b_date), (a.b_date, b.b_date))
    h, n, x, u = a.b_time
    for v in a.b_time:
        c.require('whole', v % 1 == 0, a.b_time)
    c.require('range', c.all(h >= 0, h <= 23, n >= 0, n <= 59, x >= 0,
                             x <= 59, u >= 0, u <= 999999), a.b_time)
    c.require('naive', a.tzinfo is None)
    e = h * 3600 + n * 60 + x + u / 1e6 - f * 86400
    c.require('time', c.all(e <= .0095, e >= -.0095), a.b_time)


def moment(c, p=''):
    """A date, and a timestamp near its civil day."""
    y, m, d = badi_date(c)
    j = c.int('era', 0, 5)
    if c.symbolic:
        c.assume(c.all(y >= ERAS[j], y < ERAS[j + 1]))
        c.assume(c.all(y >= -1841, y <= 1156))
    D = civil_noon(c, y, m, d)
    c.hint(y, D)
    # not at the days of the reform
    c.assume(c.any(D < 2299140, D > 2299170))
    return y, m, d, D


def jd_of(c, t):
    """The Julian day the library makes of a timestamp."""
    got = []
    bc = copy.copy(c.m.tdu)
    bc.badi_date_from_jd = lambda jd, *a, **k: got.append(jd)
    bc.badi_date_from_timestamp(t, us=True, short=True)
    c.assume(len(got) == 1)
    return got[0]


@unit('C28', 'sunset', stubs=[K.check_date, K.day_coeff, K.sunset_pairs],
      samples=800, shards=eras, tl=300,
      about='_utc_to_badi_time of any timestamp finds the sunset of a day '
            'and the time since then, and the timestamp of the date of this '
            'day and this time is the original')
def sunset(c):
    y, m, d, D = moment(c)
    x = c.float('x', .03, 1.2, special=(.05, .06, 1.0, 1.05, 1.1))
    t = (D - 2440586 + .5) * 86400 + x * 86400
    jd = jd_of(c, t)
    a, f = c.m.tdu._utc_to_badi_time(jd, LAT, LON)
    # the moment belongs to this date
    c.assume(c.all(a - D >= .04, a - D <= .18))
    s = c.m.tdu.jd_from_badi_date((y, m, d))
    e = (a - s) * 86400
    # the last moments of a day of more than 24 hours, up to two steps of K.SUNSET_STEP
    c.known('KF-LONGDAY', c.all(jd < s, jd > s - 191 / 86400))
    c.require('sunset-of-day', c.all(e <= 1e-4, e >= -1e-4), (a, s))
    c.require('fraction', c.all(f >= 0, f < 1), (a, f))
    ln = K.mlen(c, y, m)
    if bool(d < ln):
        nx = (y, m, d + 1)
    else:
        nx = ((y, 0, 1) if bool(m == 18) else (y, 19, 1) if bool(m == 0) else
              (y + 1, 1, 1) if bool(m == 19) else (y, m + 1, 1))
    # so moments in order have their dates and times in order
    q = c.m.tdu.jd_from_badi_date(nx)
    c.require('next-day', jd - q < 1e-9, (jd, q))
    h, n, z, u = (c.int('hh', 0, 23), c.int('mm', 0, 59), c.int('ss', 0, 59),
                  c.int('us', 0, 999999))
    if not c.symbolic:
        q = min(round(f * 86400e6), 86399999999)
        h, n, z, u = (q // 3600000000, q // 60000000 % 60,
                      q // 1000000 % 60, q % 1000000)
    g = h * 3600 + n * 60 + z + u / 1e6 - f * 86400
    c.assume(c.all(g <= .0095, g >= -.0095))
    r = c.m.datetime(y, m, d, None, None, h, n, z, u).timestamp()
    c.require('timestamp', c.all(r - t <= .010, t - r <= .010), (t, r))


def near_sunset(c):
    """A timestamp, often near the beginning or the end of a Badi day."""
    t = c.float('t', T0, T1)
    if c.vals.get('t') is None:
        k = c.rng.random()
        if k < .3:
            t = float(int(t))
        elif k < .8:
            a, f = c.m.tdu._utc_to_badi_time(t / 86400 + EPOCH, LAT, LON)
            t = (a - EPOCH) * 86400 + c.rng.choice(
                (0, 86400, 86399, 43200, 3600, 60)) + c.rng.choice(
                (0, 1e-5, -1e-5, .001, -.001, .01, 1, 30, -30, -100))
        t = c.used['t'] = min(max(t, T0), T1)
    c.assume(abs(t / 86400 + EPOCH - 2299155) > 15)
    return t


def long_day(c, t):
    """KF-LONGDAY: t is less than 191 seconds before a sunset, and more than
    24 hours after the sunset before."""
    bc, jd = c.m.tdu, t / 86400 + EPOCH
    D = int(jd + LON / 360 + .5)

    def setting(day):
        try:
            e = bc._meeus_from_exact(day) - day
        except ValueError:
            return None
        return bc._sun_setting(day + e - LON / 360, LAT, LON) - e
    for i in (0, 1):
        a, b = setting(D + i - 1), setting(D + i)
        if a and b and a + 1 <= jd < b and jd > b - 191 / 86400:
            return True
    return False


@unit('C28', 'roundtrip', sym=False, samples=2500,
      bounded='C28.roundtrip: the whole round trip of the real library and '
              'the order of two timestamps, sampled (a cross-check of '
              'sunset and fields, which are proved)',
      about='the naive round trip of the real library, end to end')
def roundtrip(c):
    t = near_sunset(c)
    short = not c.bool('long')
    a = c.m.datetime.fromtimestamp(t, short=short)
    c.known('KF-LONGDAY', long_day(c, t))
    x = a.b_time
    c.require('whole', all(v % 1 == 0 for v in x), a)
    c.known('KF-CARRY', c.m.tdu._utc_to_badi_time(
        t / 86400 + EPOCH, LAT, LON)[1] > CARRY)
    c.require('range', 0 <= x[0] <= 23 and 0 <= x[1] <= 59 and
              0 <= x[2] <= 59 and 0 <= x[3] <= 999999, a)
    c.require('form', a.is_short == short)
    r = a.timestamp()
    c.require('timestamp', abs(r - t) <= .0101, (r, t, a))
    b = c.m.date.fromtimestamp(t, short=short)
    c.require('date', b.b_date == a.b_date, (a, b))
    t2 = t + c.choice('step', (.02, .1, 1, 60, 86400, 10 ** 7))
    c.assume(abs(t2 / 86400 + EPOCH - 2299155) > 15)
    c.known('KF-LONGDAY', long_day(c, t2))
    c.known('KF-CARRY', c.m.tdu._utc_to_badi_time(
        t2 / 86400 + EPOCH, LAT, LON)[1] > CARRY)
    z = c.m.datetime.fromtimestamp(t2, short=short)
    c.require('order', a <= z, (a, z))
