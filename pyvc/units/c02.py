"""C02 Day numbers and dates are inverse and consecutive."""
from ..core import unit
from .. import contracts as K, env as E
from ..objs import any_date


def all_years(env, tier, rng):
    return [{'y': y} for y in range(E.MINYEAR - 1, E.MAXYEAR + 2)]


@unit('C02', 'days_before_year', sym=False, cases=all_years, samples=0,
      complete=('quick', 'thorough'),
      about='contract of _days_before_year, every year')
def days_before_year(c):
    y = c.int('y', E.MINYEAR - 1, E.MAXYEAR + 1)
    r = c.m.tdu._days_before_year(y)
    c.require('days-before-year', r == c.m.Y[y] - c.m.Y[E.MINYEAR])


@unit('C02', 'ymd2ord', stubs=[K.days_before_year], exact=True,
      about='_ymd2ord, _days_before_month against the year table')
def ymd2ord(c):
    y = c.int('y', E.MINYEAR - 1, E.MAXYEAR, special=K.SPECIAL_YEARS)
    m = c.int('m', 0, 19, special=(0, 18, 19, 1))
    d = c.int('d', 1, 19, special=(1, 4, 5, 19))
    o = c.m.tdu._ymd2ord(y, m, d)
    c.require('number-up-to-finding', o == K.code_ord(c, y, m, d), o)
    c.known('KF-ORD', K.fudge(c, y))
    c.require('number', o == K.spec_ord(c, y, m, d), o)


@unit('C02', 'ymd2ord_first', stubs=[K.days_before_year], exact=True,
      about='_ymd2ord of the first day of a year')
def ymd2ord_first(c):
    y = c.int('y', E.MINYEAR - 1, E.MAXYEAR + 1, special=K.SPECIAL_YEARS)
    o = c.m.tdu._ymd2ord(y, 1, 1)
    c.require('number-up-to-finding', o == K.code_ord(c, y, 1, 1), o)


@unit('C02', 'ord2ymd', stubs=[K.sunset_tehran],
      about='_ord2ymd, badi_date_from_jd, _utc_to_badi_time, '
            '_badi_year_from_rd for every number')
def ord2ymd(c):
    n = c.int('n', K.ORD1, K.MAXORD)
    c.assume(c.any(n < K.GAP_ORD[0], n > K.GAP_ORD[1]))
    y, m, d = c.m.tdu._ord2ymd(n, short=True)[:3]
    c.require('valid', c.all(y >= E.MINYEAR, y <= E.MAXYEAR, m >= 0, m <= 19,
                             d >= 1, d <= K.mlen(c, y, m)), (y, m, d))
    c.require('number', K.spec_ord(c, y, m, d) == n, (y, m, d))


@unit('C02', 'injective', exact=True,
      about='lemma: two valid dates of the same number are equal')
def injective(c):
    a = K.date_fields(c, 'a', known=False)
    b = K.date_fields(c, 'b', known=False)
    o, p = K.spec_ord(c, *a), K.spec_ord(c, *b)
    c.require('year', c.implies(o == p, a[0] == b[0]))
    c.require('month', c.implies(o == p, a[1] == b[1]))
    c.require('day', c.implies(o == p, a[2] == b[2]))


@unit('C02', 'roundtrip', stubs=[K.ymd2ord, K.ord2ymd, K.long_form],
      about='date.toordinal and date.fromordinal, short and long form')
def roundtrip(c):
    a, (y, m, d) = any_date(c)
    o = a.toordinal()
    c.require('in-range', c.any(K.fudge(c, y),
                                c.all(o >= K.ORD1, o <= K.MAXORD)))
    c.assume(c.any(o < K.GAP_ORD[0], o > K.GAP_ORD[1]))
    c.known('KF-ORD', K.fudge(c, y))
    c.require('number', o == K.spec_ord(c, y, m, d), o)
    b = type(a).fromordinal(o, short=a.is_short)
    c.require('same-date', c.eq(b.b_date, a.b_date), b)
    c.require('same-form', b.is_short == a.is_short)


@unit('C02', 'range', stubs=[K.sunset_tehran],
      about='numbers up to 300 below 78 or above 1097266 are rejected')
def range_near(c):
    n = c.int('n', -222, K.MAXORD + 300, special=(
        0, 1, 76, 77, K.MAXORD + 1, 1097267))
    c.assume(c.any(n < K.ORD1, n > K.MAXORD))
    _, e = c.exc(lambda: c.m.date.fromordinal(n), Exception)
    c.require('rejected', e is not None, n)


@unit('C02', 'range_far', sym=False,
      bounded='C02.range_far: numbers more than 300 outside of the range '
              'are sampled')
def range_far(c):
    n = c.int('n', -10 ** 7, 10 ** 7, special=(-10 ** 6, -1000, 1100000))
    c.assume(c.any(n < K.ORD1, n > K.MAXORD))
    _, e = c.exc(lambda: c.m.date.fromordinal(n), Exception)
    c.require('rejected', e is not None, n)


def consecutive_cases(env, tier, rng):
    out = []
    for y in range(E.MINYEAR, E.MAXYEAR + 1):
        n = env.Y[y] - env.Y[E.MINYEAR] + K.ORD1
        for k in (0, 341, 342, 345, 346, 347, 364):
            out.append({'n': n + k})
        out.append({'n': rng.randint(n, n + 364)})
    return out


@unit('C02', 'dates', sym=False, cases=consecutive_cases, samples=0,
      about='fromordinal and toordinal of the real library at the month '
            'boundaries of every year',
      bounded='C02.dates: real date objects at eight days of every year '
              '(a cross-check of the proved units)')
def dates(c):
    n = c.int('n', K.ORD1, K.MAXORD)
    c.assume(c.any(n < K.GAP_ORD[0], n > K.GAP_ORD[1]))
    a = c.m.date.fromordinal(n)
    o = a.toordinal()
    c.require('back-up-to-finding', o == n + (a.year in K.FUDGE))
    c.known('KF-ORD', a.year in K.FUDGE)
    c.require('back', o == n, (a, o))
