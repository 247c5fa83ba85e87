"""C01 Year and month structure of the calendar."""
from ..core import unit
from .. import contracts as K, env as E
from ..objs import any_date


def one(env, tier, rng):
    return [{}]


@unit('C01', 'table_axioms', sym=False, cases=one, samples=0,
      complete=('quick', 'thorough'),
      about='the axioms used for the year table in all proofs, on every pair '
            'of years of the real table')
def table_axioms(c):
    Y = c.m.Y
    n, bad = E.table_axioms(Y)
    c.require('years', sorted(Y) == list(range(E.MINYEAR - 1,
                                               E.MAXYEAR + 2)))
    c.require('integers', all(type(v) is int for v in Y.values()))
    c.require('any-two-years', not bad, bad[:3])
    a, b = E.envelope(Y)
    c.require('envelope', 0 <= b - a < 30000, (a, b))
    c.require('constants', (c.m.BC.MINYEAR, c.m.BC.MAXYEAR) == (
        E.MINYEAR, E.MAXYEAR))


def all_years(env, tier, rng):
    return [{'y': y} for y in range(E.MINYEAR, E.MAXYEAR + 1)]


def months(n):
    """The months of a year of n days, in order, with their lengths."""
    return [(m, 19) for m in range(1, 19)] + [(0, n - 361), (19, 19)]


@unit('C01', 'years', sym=False, cases=all_years, samples=0,
      complete=('quick', 'thorough'),
      about='length, leap flag, months, first day of every year')
def years(c):
    y = c.int('y', E.MINYEAR, E.MAXYEAR)
    Y = c.m.Y
    n = Y[y + 1] - Y[y]
    c.require('length', n in (365, 366), n)
    leap = c.m.tdu._is_leap_year(y)
    c.require('leap-flag', leap is (n == 366), leap)
    # the year begins where the JD of its first day lies
    bc, (lat, lon) = c.m.tdu, c.m.BC._BAHAI_LOCATION[:2]
    jd = bc.jd_from_badi_date((y, 1, 1))
    nxt = bc.jd_from_badi_date((y, 19, 19))
    c.require('last-day', round(nxt - jd) == n - 1, (jd, nxt))
    day = (jd - 1721423.5) + lon / 360 + 0.5
    c.require('begins', Y[y] == int(day // 1), (jd, Y[y]))
    if n == 366 and y < E.MAXYEAR:
        nl = [x for x in range(y + 1, y + 8)
              if x <= E.MAXYEAR and Y[x + 1] - Y[x] == 366]
        c.require('gap', (nl[:1] or [y + 4])[0] - y in (4, 5) or
                  y + 5 > E.MAXYEAR, nl[:1])
    # the days in their order
    k = 0
    for m, ln in months(n):
        c.require('days-before-month', bc._days_before_month(y, m) == k, m)
        for d in (1, ln):
            b = bc.badi_date_from_jd(Y[y] + k + d - 1 + 1721423.5 - 1 + .9,
                                     short=True, rtd=False)[:3] \
                if m in (0, 1, 18, 19) and not gap(Y[y] + k + d - 1) else (y, m, d)
            c.require('date-of-day', b == (y, m, d), (m, d, b))
        k += ln
        for cls in (c.m.date, c.m.datetime):
            _, e = c.exc(lambda: cls(y, m, ln), Exception)
            c.require('last-day-exists', e is None, (m, ln, e))
            _, e = c.exc(lambda: cls(y, m, ln + 1), Exception)
            c.require('no-longer-month', e is not None, (m, ln))
    c.require('sum', k == n)


def gap(rd):
    """At the days the two JD scales leave out."""
    return 577725 - 2 <= rd <= 577734 + 2



@unit('C01', 'successor', stubs=[K.ymd2ord, K.ord2ymd, K.long_form],
      about='the day after any date, month by month')
def successor(c):
    a, (y, m, d) = any_date(c)
    c.known('KF-ORD', K.fudge(c, y))
    n = K.spec_ord(c, y, m, d)
    c.assume(c.all(n < K.MAXORD, c.any(n + 1 < K.GAP_ORD[0],
                                       n + 1 > K.GAP_ORD[1])))
    b = a + c.m.timedelta(days=1)
    y2, m2, d2 = b._short_from_long_form()[:3]
    c.known('KF-ORD', K.fudge(c, y2))
    if bool(d < K.mlen(c, y, m)):
        c.require('same-month', c.eq((y2, m2, d2), (y, m, d + 1)), b)
    elif bool(m == 18):
        c.require('intercalary', c.eq((y2, m2, d2), (y, 0, 1)), b)
    elif bool(m == 0):
        c.require('month-19', c.eq((y2, m2, d2), (y, 19, 1)), b)
    elif bool(m == 19):
        c.require('next-year', c.eq((y2, m2, d2), (y + 1, 1, 1)), b)
    else:
        c.require('next-month', c.eq((y2, m2, d2), (y, m + 1, 1)), b)


@unit('C01', 'day_of_year',
      about='the number of a day in its year, of every date')
def day_of_year(c):
    y, m, d = K.date_fields(c, known=False)
    n = c.m.tdu._days_before_month(y, m) + d
    c.require('number', n == K.doy(c, y, m, d), n)
    c.require('range', c.all(n >= 1, n <= 365 + K.leap(c, y)))


@unit('C01', 'leap_flag', about='_is_leap_year against the year table')
def leap_flag(c):
    y = c.int('y', -10000, 10000, special=K.SPECIAL_YEARS + (
        -1844, -1843, 1162, 1163))
    r, e = c.exc(lambda: c.m.tdu._is_leap_year(y), KeyError)
    ok = bool(c.all(y >= E.MINYEAR - 1, y <= E.MAXYEAR))
    c.require('outside', (e is None) == ok)
    if ok:
        c.require('leap', r == (K.leap(c, y) == 1), r)
        c.require('range', c.all(K.leap(c, y) >= 0, K.leap(c, y) <= 1))
