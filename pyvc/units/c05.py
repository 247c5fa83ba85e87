"""C05 Badi dates round-trip through Julian days, timestamps and sunset."""
import copy
import math

import z3

from ..core import unit
from .. import contracts as K, env as E, sym
from ..sym import SReal
from fractions import Fraction as F

D0, D1 = 1721000, 2819000
BLOCK = 1100
MEMO = {}


def memoize(env):
    """Cache the pure functions that a sunset evaluates again and again (for
    speed only; every value is computed by the real code)."""
    for n in ('_nutation_obliquity_longitude', '_sun_apparent_declination',
              '_sun_apparent_right_ascension'):
        f = env.Base.__dict__.get(n)
        if f is None or getattr(f, 'memo', False):
            continue

        def g(self, *a, _f=f, **k):
            key = (_f, a, tuple(k.items()))
            if key not in MEMO:
                MEMO[key] = _f(self, *a, **k)
            return MEMO[key]
        g.memo = True
        setattr(env.Base, n, g)


def blocks(env, tier, rng):
    return [{'block': i} for i in range((D1 - D0) // BLOCK + 1)]


@unit('C05', 'sunset_window', sym=False, cases=blocks, samples=0,
      complete=('quick', 'thorough'),
      about='contract of _sun_setting at the reference point: every local '
            'day of the calendar, and every two that follow one another')
def sunset_window(c):
    i = c.int('block', 0, (D1 - D0) // BLOCK)
    memoize(c.m)
    bc, (lat, lon) = c.m.tdu, c.m.BC._BAHAI_LOCATION[:2]
    prev = None
    for D in range(D0 + i * BLOCK, min(D1, D0 + (i + 1) * BLOCK) + 1):
        MEMO.clear()
        s = bc._sun_setting(float(D), lat, lon)
        c.require('window', D + .05 <= s <= D + .17, (D, s))
        if prev is not None:
            c.require('step', abs(s - prev - 1) <= K.SUNSET_STEP,
                      (D, s, prev))
        prev = s


def any_rise_set(env):
    """Any function of the arguments."""
    def f(self, jd, lat, lon, *, offset, sr_ss='RISE'):
        r = sym.run()
        jd = sym.to_real(jd)
        key = ('rise_set', jd.key(), lat, lon, offset, sr_ss)
        if key not in r.memo:
            v = r.fresh('m', z3.RealSort())
            r.add(v >= 0, v <= 1)
            r.memo[key] = SReal(v, F(0), F(1)), jd
            for k2, (v2, jd2) in [x for x in r.memo.items()
                                  if x[0] and x[0][0] == 'rise_set']:
                if k2[-4:] == key[-4:]:
                    r.add(z3.Implies(jd.e == jd2.e, v == v2.e))
        return r.memo[key][0]
    E.stub(env, env.Base, '_rising_setting', f)


@unit('C05', 'sunset_by_day', stubs=[any_rise_set], samples=300,
      about='the sunset at the reference point is a function of the local '
            'day: any two moments of one day give the same')
def sunset_by_day(c):
    lat, lon = c.m.BC._BAHAI_LOCATION[:2]
    D = c.int('D', D0, D1)
    c.hint(D)
    f = c.float('f', -.5 - lon / 360 + 1e-9, .5 - lon / 360 - 1e-9)
    g = c.float('g', -.5 - lon / 360 + 1e-9, .5 - lon / 360 - 1e-9)
    a = c.m.tdu._sun_setting(D + f, lat, lon)
    b = c.m.tdu._sun_setting(D + g, lat, lon)
    c.require('same', a == b, (a, b))


def all_years(env, tier, rng):
    return [{'y': y} for y in range(E.MINYEAR - 1, E.MAXYEAR + 2)]


@unit('C05', 'day_coeff', sym=False, cases=all_years, samples=0,
      complete=('quick', 'thorough'),
      about='contract of _get_day_coeff, every year')
def day_coeff(c):
    y = c.int('y', E.MINYEAR - 1, E.MAXYEAR + 1)
    bc = c.m.tdu
    k = bc._get_day_coeff(y)
    c.require('int', type(k) is int, k)
    c.require('naw-ruz', bc._days_in_years(y - 1) +
              math.floor(bc._BADI_EPOCH + 1) + k == c.m.Y[y] + 1721422, k)


@unit('C05', 'check_date', stubs=[K.is_leap], samples=600,
      about='contract of _check_valid_badi_date: valid dates are accepted')
def check_date(c):
    y, m, d = K.date_fields(c, known=False)
    short = c.bool('short')
    h, n = c.int('hh', 0, 24), c.int('mm', 0, 59)
    s = (c.int('ss', 0, 59) if c.bool('whole') else
         c.float('fs', 0, 60 - 2.0 ** -47))
    u = c.int('us', 0, 999999)
    if short:
        head = (y,)
    else:
        k, v, w = (c.int('k', -5, 5), c.int('v', 1, 19), c.int('w', 1, 19))
        c.assume(y == (k - 1) * 361 + (v - 1) * 19 + w)
        head = (k, v, w)
    c.m.tdu._check_valid_badi_date((*head, m, d, h, n, s, u),
                                   short_in=short)
    c.require('accepted', True)


def badi_date(c):
    y, m, d = K.date_fields(c, known=False)
    # the days of the Gregorian reform
    c.assume(sym.snot(c.all(y == -261, m == 11, d >= 9)) if c.symbolic
             else not (y == -261 and m == 11 and d >= 9))
    return y, m, d


def tod(c):
    t = (c.int('hh', 0, 23, special=(0, 12, 23)),
         c.int('mm', 0, 59, special=(0, 54, 55)),
         c.int('ss', 0, 59), c.int('us', 0, 999999, special=(0, 999999)))
    c.assume(c.any(t[0] <= 22, t[1] <= 54))
    return t


def near_cases(env, tier, rng):
    """Around the days at which the two Julian day scales part."""
    out = []
    for y, m, d in ((-1742, 0, 1), (-1742, 18, 18), (-1642, 18, 19),
                    (-1542, 0, 2), (-1342, 0, 1), (-261, 11, 8),
                    (-261, 12, 1), (-1842, 1, 1), (1161, 19, 19)):
        for t in ((0, 0, 0, 0), (6, 0, 0, 0), (12, 0, 0, 1), (23, 54, 59, 9)):
            out.append(dict(zip(('y', 'm', 'd', 'hh', 'mm', 'ss', 'us'),
                                (y, m, d) + t)))
    return out


def civil_noon(c, y, m, d):
    """The JD (Tehran local noon) of the civil day of a date."""
    return (K.year_ord(c, y) - K.ORD1 + K.doy(c, y, m, d) - 1 +
            c.m.Y[E.MINYEAR] + 1721423)


ERAS = (-1842, -1540, -1240, -940, -440, -250, 1162)


def eras(env, tier):
    # ranges of years, so that the parts run in parallel
    return [{'era': j} for j in range(6)]


@unit('C05', 'to_sunset', stubs=[K.check_date, K.day_coeff, K.sunset_pairs],
      cases=near_cases, samples=1000, shards=eras, tl=300,
      about='jd_from_badi_date gives the sunset of the civil day plus the '
            'time of day, and _utc_to_badi_time finds both again')
def to_sunset(c):
    y, m, d = badi_date(c)
    t = tod(c)
    j = c.int('era', 0, 5)
    if c.symbolic:
        c.assume(c.all(y >= ERAS[j], y < ERAS[j + 1]))
    D = civil_noon(c, y, m, d)
    c.hint(y, D)
    jd = c.m.tdu.jd_from_badi_date((y, m, d) + t)
    lat, lon = c.m.BC._BAHAI_LOCATION[:2]
    a, f = c.m.tdu._utc_to_badi_time(jd, lat, lon)
    c.require('sunset-of-day', c.all(a - D >= .04, a - D <= .18), (a, D))
    e = f * 86400 - (t[0] * 3600 + t[1] * 60 + t[2] + t[3] / 1e6)
    c.require('time', c.all(e <= 1e-4, e >= -1e-4), (a, f))
    c.require('fraction', c.all(f >= 0, f < 1 - .0034), (a, f))


def months(env, tier):
    return [{'part': i} for i in range(4)]


@unit('C05', 'from_sunset', stubs=[K.check_date, K.hms_of_fraction,
                                   K.split_second, K.long_form],
      samples=1000, shards=months, tl=300,
      about='badi_date_from_jd of any moment up to 23:55 after the sunset of '
            'the civil day of a date')
def from_sunset(c):
    y, m, d = badi_date(c)
    i = c.int('part', 0, 3)
    if c.symbolic:
        c.assume((m == 0) if i == 0 else (m == 19) if i == 3 else
                 c.all(m >= 1, m <= 9) if i == 1 else
                 c.all(m >= 10, m <= 18))
    D = civil_noon(c, y, m, d)
    c.hint(y, m, d, D)
    s = c.float('s', .05, .17)
    f = c.float('f', 0, 1 - .0034)
    bc = copy.copy(c.m.tdu)         # by the contract of _utc_to_badi_time
    bc._utc_to_badi_time = lambda jd, lat, lon: (D + s, f)
    r = bc.badi_date_from_jd(2451545., us=True, short=True)
    c.require('date', c.eq(r[:3], (y, m, d)), r)
    e = r[3] * 3600 + r[4] * 60 + r[5] + r[6] / 1e6 - f * 86400
    c.require('time', c.all(e <= .0095, e >= -.0095), r)


@unit('C05', 'roundtrip', sym=False, cases=near_cases, samples=3000,
      bounded='C05.roundtrip: the JD round trip of the real library is '
              'sampled end to end (a cross-check of to_sunset and '
              'from_sunset, which are proved)')
def roundtrip(c):
    y, m, d = badi_date(c)
    t = tod(c)
    jd = c.m.tdu.jd_from_badi_date((y, m, d) + t)
    r = c.m.tdu.badi_date_from_jd(jd, us=True, short=True)
    c.require('date', c.eq(r[:3], (y, m, d)), r)
    e = (r[3] - t[0]) * 3600 + (r[4] - t[1]) * 60 + (r[5] - t[2]) + (
        r[6] - t[3]) / 1e6
    c.require('time', c.all(e <= .010, e >= -.010), r)


@unit('C05', 'timestamp_jd', samples=2000,
      shards=lambda env, tier: [{'low': 0}, {'low': 1}],
      about='timestamp_from_badi_date and badi_date_from_timestamp: every '
            'Julian day comes back exactly (but for two days near 2**21)')
def timestamp_jd(c):
    if c.bool('low'):
        lo, hi, g = D0, 2 ** 21 - 1, -32
    else:
        lo, hi, g = 2 ** 21 + 1, D1, -31
    jd = c.float('jd', lo, hi, grid=g)
    bc = copy.copy(c.m.tdu)         # with any date of this JD
    bc.jd_from_badi_date = lambda *a, **k: jd
    bc.badi_date_from_jd = lambda jd, *a, **k: jd
    t = bc.timestamp_from_badi_date(None)
    b = bc.badi_date_from_timestamp(t)
    c.require('near', c.all(b - jd < 2.0 ** g, jd - b < 2.0 ** g), (t, b))
    c.integral(jd, g)
    c.integral(b, g)
    c.require('same', b == jd, (t, b))


@unit('C05', 'timestamp', sym=False, cases=near_cases, samples=3000,
      about='the timestamp round trip of the real library',
      bounded='C05.timestamp: the timestamp round trip of dates and times '
              'is sampled (a cross-check: the JD round trip and the exact '
              'return of the JD are proved)')
def timestamp(c):
    y, m, d = badi_date(c)
    t = tod(c)
    bc = c.m.tdu
    s = bc.timestamp_from_badi_date((y, m, d) + t)
    r = bc.badi_date_from_timestamp(s, us=True, short=True)
    c.require('date', r[:3] == (y, m, d), r)
    e = (r[3] - t[0]) * 3600 + (r[4] - t[1]) * 60 + (r[5] - t[2]) + (
        r[6] - t[3]) / 1e6
    c.require('time', abs(e) <= .010, r)


@unit('C05', 'steps', stubs=[K.check_date, K.day_coeff, K.sunset_pairs],
      samples=600,
      about='every date begins at the sunset of its civil day, within five '
            'minutes of one day after the date before')
def steps(c):
    y, m, d = badi_date(c)
    ln = K.mlen(c, y, m)
    if bool(d < ln):
        n = (y, m, d + 1)
    else:
        n = ((y, 0, 1) if bool(m == 18) else (y, 19, 1) if bool(m == 0) else
             (y + 1, 1, 1) if bool(m == 19) else (y, m + 1, 1))
    # the other side of the reform days
    c.assume(c.any(n[0] != -261, n[1] != 11, n[2] != 9))
    c.assume(n[0] <= E.MAXYEAR)
    bc = c.m.tdu
    a, b = bc.jd_from_badi_date((y, m, d)), bc.jd_from_badi_date(n)
    e = b - a - 1
    c.require('one-day', c.all(e <= 5 / 1440, e >= -5 / 1440), (a, b))
    D = civil_noon(c, y, m, d)
    c.require('sunset-of-day', c.all(a - D >= .04, a - D <= .18), (a, D))
