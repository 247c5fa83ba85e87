"""C04 Historical and astronomical Julian days convert one to one."""
from ..core import unit
from . import c03

# per century year without 29 February in the proleptic calendar: the JD of
# its 1 March in the proleptic (astronomical) count
CENTURIES = (100, 200, 300, 500, 600, 700, 900, 1000, 1100, 1300, 1400, 1500)
REFORM = 2299148.5          # 1582-10-05 in the astronomical count
MID = dict(special=sorted({s + d for s in (
    1757641.5, 1794165.5, 1794166.5, 1830689.5, 1830691.5, 2268980.5,
    2268991.5, 2299148.5, 2299158.5, 2299160.5, 1721423.5, 2299150.5)
    for d in (0, -1, 1, -.5, .5, 1e-6, -1e-6)}))


def bc(c):
    return c.m.tdu


def jd_input(c):
    """Any float from 2**20 to 2**22 (years -1842 to 6769): multiples of
    2**-31, or of 2**-32 below 2**21 (the last 16 days before 2**21 to
    multiples of 2**-31)."""
    if c.bool('low'):
        jd = c.float('jd', 2 ** 20, 2 ** 21 - 16, grid=-32, **MID)
    else:
        jd = c.float('jd', 2 ** 21 - 16, 2 ** 22 - 16, grid=-31, **MID)
    return jd


@unit('C04', 'exact_to_meeus', about='_meeus_from_exact and back')
def exact_to_meeus(c):
    jd = jd_input(c)
    h, e = c.exc(lambda: bc(c)._meeus_from_exact(jd), ValueError)
    ok = bool(c.any(jd < REFORM, jd >= REFORM + 10))
    c.require('rejected-iff-gap', (e is None) == ok, (h, e))
    if e is not None:
        return
    s = h - jd
    c.require('shift', c.all(s >= 0, s <= 12), s)
    if c.symbolic:
        c.require('whole', s.is_integer())
    else:
        c.require('whole', s % 1 == 0)
    c.require('back', bc(c)._exact_from_meeus(h) == jd, h)


def meeus_gaps(c, jd):
    """The historical leap days that the proleptic calendar does not have."""
    return [c.all(jd >= a, jd < a + 1) for a in leap_days()]


def leap_days():
    """Historical JD of 29 February (Julian calendar) of the centuries."""
    out = []
    for y in CENTURIES:
        p, k = y + 4800 - 1, 2 + 12 - 3
        out.append(29 + (153 * k + 2) // 5 + 365 * p + p // 4 - 32083 - .5)
    return out


@unit('C04', 'meeus_to_exact', about='_exact_from_meeus and back')
def meeus_to_exact(c):
    jd = jd_input(c)
    x, e = c.exc(lambda: bc(c)._exact_from_meeus(jd), ValueError)
    bad = bool(c.any(*meeus_gaps(c, jd)))
    c.require('rejected-iff-leap-day', (e is not None) == bad, (x, e))
    if e is not None:
        return
    s = jd - x
    c.require('shift', c.all(s >= 0, s <= 12), s)
    c.require('whole', s.is_integer() if c.symbolic else s % 1 == 0)
    c.require('back', bc(c)._meeus_from_exact(x) == jd, x)


@unit('C04', 'monotonic', about='both conversions keep the order')
def monotonic(c):
    a = c.float('a', 2 ** 20, 2 ** 22 - 16, grid=-31, **MID)
    b = c.float('b', 2 ** 20, 2 ** 22 - 16, grid=-31, **MID)
    c.assume(a < b)
    f = bc(c)._meeus_from_exact if c.bool('to') else bc(c)._exact_from_meeus
    x, e = c.exc(lambda: f(a), ValueError)
    y, e2 = c.exc(lambda: f(b), ValueError)
    if e is None and e2 is None:
        c.require('order', x < y, (x, y))


@unit('C04', 'calendars', shards=c03.months,
      about='the same calendar label on both scales, every date of the '
            'years 1 to 3000 and every fraction of a day')
def calendars(c):
    y = c.int('y', 1, 3000, special=(100, 200, 400, 1582, 1500, 1583))
    m = c03.month(c)
    d = c.int('d', 1, 31, special=(1, 4, 15, 28, 29, 31))
    c03.valid_historical(c, y, m, d)
    x0 = c03.ordinal(c, y, m, d) + (c03.OFFSET - 1)
    h0 = c03.historical_number(c, y, m, d) - 0.5
    f = c.float('f', 0, 1 - 2.0 ** -31, grid=-31, special=(
        0, .5, 1 - 2.0 ** -31))
    c.require('to-historical', bc(c)._meeus_from_exact(x0 + f) == h0 + f)
    c.require('to-exact', bc(c)._exact_from_meeus(h0 + f) == x0 + f)
