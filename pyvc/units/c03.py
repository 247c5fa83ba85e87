"""C03 Gregorian dates and Julian days round-trip."""
import datetime

from ..core import unit
from .. import loops
from ..loops import Invariant

OFFSET = 1721424.5 - 1      # JD of midnight before day number 1, minus 1
LEN = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
TOL = 1e-8
FMAX = 1 - 2.0 ** -23


def gc(c):
    return c.m.GC()


def leap(c, y):
    """1 in a leap year of the proleptic Gregorian calendar."""
    return c.ite(c.all(y % 4 == 0, c.any(y % 100 != 0, y % 400 == 0)), 1, 0)


def mlen(c, y, m):
    """m is an integer of Python."""
    return LEN[m - 1] + (leap(c, y) if m == 2 else 0)


def ordinal(c, y, m, d):
    """The standard proleptic Gregorian day number; m is concrete."""
    p = y - 1
    return (365 * p + p // 4 - p // 100 + p // 400 + sum(LEN[:m - 1]) + d +
            (leap(c, y) if m > 2 else 0))


def julian_ordinal(c, y, m, d):
    """The same of a date of the Julian calendar (Julian day + 0.5)."""
    p = y + 4800 - (1 if m <= 2 else 0)
    k = m + 12 - 3 if m <= 2 else m - 3
    return d + (153 * k + 2) // 5 + 365 * p + p // 4 - 32083


def month(c):
    return c.choice('m', range(1, 13))


def jd_frac(c, n, jd0):
    """The fraction f of any float jd0 + f, jd0 = n - 0.5 (JD after year 0):
    a multiple of 2**-32 below 2**21, and of 2**-31 from there on."""
    k = c.choice('range', (0, 1, 2))
    g, hi = -32, 1 - 2.0 ** -32
    if k == 0:
        c.assume(n < 2 ** 21)
    elif k == 1:
        c.assume(n == 2 ** 21)
        hi = .5
    else:
        c.assume(n >= 2 ** 21)
        g, hi = -31, 1 - 2.0 ** -31
    return c.float('f', 0, hi, grid=g, special=(
        0, .5, .25, 1e-9, .999999, 1 - 2.0 ** g, 2.0 ** g))


def frac(c):
    return c.float('f', 0, FMAX, special=(0, .5, .25, 1e-9, .999999))


def quads(env, tier):
    return [{'m': m, 'r': r} for m in range(12) for r in range(4)]


def months(env, tier):
    return [{'m': m} for m in range(12)]


@unit('C03', 'ordinal_spec', sym=False, samples=3000,
      about='the day number used as specification is that of the standard '
            'library',
      bounded='C03.ordinal_spec: the specification against datetime.date')
def ordinal_spec(c):
    y = c.int('y', 1, 3000, special=(1, 4, 100, 400, 1582, 2000))
    m = month(c)
    d = c.int('d', 1, 28)
    c.require('ordinal', ordinal(c, y, m, d) ==
              datetime.date(y, m, d).toordinal())


@unit('C03', 'exact_jd', about='jd_from_gregorian_date(exact=True)')
def exact_jd(c):
    y = c.int('y', 1, 3000, special=(1, 4, 100, 400, 1582, 2000))
    m = month(c)
    d = c.int('d', 1, 31, special=(1, 28, 29, 30, 31))
    c.assume(d <= mlen(c, y, m))
    jd = gc(c).jd_from_gregorian_date((y, m, d), exact=True)
    c.require('number', jd == ordinal(c, y, m, d) + (OFFSET - 1), jd)


@unit('C03', 'exact_jd_time',
      about='jd_from_gregorian_date(exact=True) with a time or a fraction')
def exact_jd_time(c):
    y = c.int('y', 1, 3000, special=(1, 4, 100, 400, 1582, 2000))
    m = month(c)
    d = c.int('d', 1, 31, special=(1, 28, 29, 30, 31))
    c.assume(d <= mlen(c, y, m))
    if c.bool('hms'):
        h, mi, s = c.int('h', 0, 23), c.int('mi', 0, 59), c.int('s', 0, 59)
        jd = gc(c).jd_from_gregorian_date((y, m, d, h, mi, s), exact=True)
        f = (h * 3600 + mi * 60 + s) / 86400
    else:
        f = frac(c)
        jd = gc(c).jd_from_gregorian_date((y, m, d + f), exact=True)
    e = jd - (ordinal(c, y, m, d) + (OFFSET - 1)) - f
    c.require('number', c.all(e <= TOL, e >= -TOL), (jd, f))


class YearLoop(Invariant):
    """gregorian_date_from_jd: while days > 365"""
    names = ('year', 'td', 'days')
    reads = ('md',)

    def diy(self, y):
        """Days of the years 1..y (of y+1..0 negative)"""
        return 365 * y + y // 4 - y // 100 + y // 400

    def holds(self, c, L, L0):
        y, td, days, md = (L[k] for k in ('year', 'td', 'days', 'md'))
        return [('td', td == self.diy(y)),
                ('days', days == md - td),
                ('low', c.any(days > 0, c.all(days > -1, leap(c, y) == 1))),
                ('up', c.all(y >= -3100, y <= 3100))]

    def fresh(self, c, L, L0):
        y = c.int('loop-year', -3100, 3100)
        for k in (c.m.ghost_year - 1, c.m.ghost_year):   # a case split
            if bool(y == k):
                y = k
                break
        td = self.diy(y)
        days = L['md'] - td
        c.assume(c.any(days > 0, c.all(days > -1, leap(c, y) == 1)))
        return {'year': y, 'td': td, 'days': days}

    def variant(self, c, L):
        return L['days']


def year_loop(env):
    loops.cut(env, env.GC, 'gregorian_date_from_jd', 0, YearLoop())


@unit('C03', 'exact_roundtrip', stubs=[year_loop], shards=months,
      about='gregorian_date_from_jd(exact=True) of every date of the years 1 '
            'to 3000 with any fraction of a day; cases by month')
def exact_roundtrip(c):
    y = c.int('y', 1, 3000, special=(1, 4, 100, 400, 1582, 2000))
    m = month(c)
    d = c.int('d', 1, 31, special=(1, 28, 29, 30, 31))
    c.assume(d <= mlen(c, y, m))
    c.m.ghost_year = y
    n = ordinal(c, y, m, d) + int(OFFSET - .5)
    jd0 = n - .5
    jd = jd0 + jd_frac(c, n, jd0)
    f = jd - jd0
    r = gc(c).gregorian_date_from_jd(jd, exact=True)
    c.require('date', c.all(r[0] == y, r[1] == m), r)
    e = r[2] - d - f
    c.require('day', c.all(e <= TOL, e >= -TOL), r)


def valid_historical(c, y, m, d):
    """A date of the Julian calendar up to 1582-10-04, or of the Gregorian
    calendar from 1582-10-15, that the library accepts (it rejects the
    Julian leap days of century years and the years' 29 February that the
    proleptic calendar lacks)."""
    c.assume(d <= mlen(c, y, m))
    if m == 10:
        c.assume(c.any(y != 1582, d <= 4, d >= 15))


def historical_number(c, y, m, d):
    after = c.any(y > 1582, c.all(y == 1582, c.any(
        m > 10, c.all(m == 10, d >= 15))))
    return c.ite(after, ordinal(c, y, m, d) + 1721425,
                 julian_ordinal(c, y, m, d))


@unit('C03', 'historical_jd', about='jd_from_gregorian_date')
def historical_jd(c):
    y = c.int('y', -4712, 3000, special=(1582, 1583, 1581, 0, -1, 4, 100))
    m = month(c)
    d = c.int('d', 1, 31, special=(1, 4, 15, 28, 29, 30, 31))
    valid_historical(c, y, m, d)
    jd = gc(c).jd_from_gregorian_date((y, m, d))
    c.require('number', jd == historical_number(c, y, m, d) - 0.5, jd)


@unit('C03', 'historical_roundtrip', shards=quads,
      about='gregorian_date_from_jd of every date with any fraction of a '
            'day; cases by month and by the year modulo 4')
def historical_roundtrip(c):
    y = 4 * c.int('q', -1178, 749, special=(395, 396, 0, -1, 1)) + c.int(
        'r', 0, 3)
    m = month(c)
    d = c.int('d', 1, 31, special=(1, 4, 15, 28, 29, 30, 31))
    valid_historical(c, y, m, d)
    f = frac(c)
    jd = historical_number(c, y, m, d) - 0.5 + f
    r = gc(c).gregorian_date_from_jd(jd)
    c.require('date', c.all(r[0] == y, r[1] == m), r)
    e = r[2] - d - f
    c.require('day', c.all(e <= TOL, e >= -TOL), r)


@unit('C03', 'reform', samples=200, about='the days 1582-10-05 to 14')
def reform(c):
    d = c.int('d', 5, 14)
    f = frac(c)
    _, e = c.exc(lambda: gc(c).jd_from_gregorian_date((1582, 10, d)),
                 Exception)
    c.require('rejected', e is not None)
    a = gc(c).jd_from_gregorian_date((1582, 10, 4))
    b = gc(c).jd_from_gregorian_date((1582, 10, 15))
    c.require('consecutive', b - a == 1)
    c.require('back', gc(c).gregorian_date_from_jd(a + 1) == (1582, 10, 15))
