"""Specification functions and callee contracts.

A contract is used at call sites in place of the function in a proof; the
unit named in its docstring proves (or enumerates) it for the real body.
"""
from fractions import Fraction as F

import z3

from . import env as E, sym
from .sym import SInt, SReal, is_sym

FUDGE = (-1796, -1792, -1788)       # known finding KF-ORD
GAP_ORD = (577725, 577734)          # the reform days by number
ORD1 = 78                           # the number of the first date
MAXORD = 1097266


# ----------------------------------------------------- specification level

def leap(c, y):
    """1 in a leap year: the next year begins 366 days later."""
    if c.m.LEAP is not None and is_sym(y):
        return c.m.LEAP(y)
    Y = c.m.YEAR
    return Y(y + 1) - Y(y) - 365


def mlen(c, y, m):
    if not is_sym(m):
        return 4 + leap(c, y) if m == 0 else 19
    return c.ite(m == 0, 4 + leap(c, y), 19)


def doy(c, y, m, d):
    """The day of the year, from 1."""
    if not is_sym(m):
        return (342 + d if m == 0 else 346 + leap(c, y) + d if m == 19
                else (m - 1) * 19 + d)
    return c.ite(m == 0, 342 + d, c.ite(
        m == 19, 346 + leap(c, y) + d, (m - 1) * 19 + d))


def year_ord(c, y):
    """The number of the first day of year y."""
    return c.m.YEAR(y) - c.m.Y[E.MINYEAR] + ORD1


def spec_ord(c, y, m, d):
    if c.m.ORD is not None and (is_sym(y) or is_sym(m) or is_sym(d)):
        return c.m.ORD(y, m, d)
    return year_ord(c, y) - 1 + doy(c, y, m, d)


def code_ord(c, y, m, d):
    """What _ymd2ord returns: the number, or with KF-ORD the next one."""
    return spec_ord(c, y, m, d) + c.ite(fudge(c, y), 1, 0)


def fudge(c, y):
    return c.any(*[y == k for k in FUDGE])


def date_fields(c, p='', lo=E.MINYEAR, hi=E.MAXYEAR, known=True):
    """Inputs (y, m, d) of any supported date."""
    y = c.int(p + 'y', lo, hi, special=SPECIAL_YEARS)
    m = c.int(p + 'm', 0, 19, special=(0, 18, 19, 1))
    d = c.int(p + 'd', 1, 19, special=(1, 4, 5, 19))
    c.assume(d <= mlen(c, y, m))
    if known:
        c.known('KF-ORD', fudge(c, y))
    return y, m, d


SPECIAL_YEARS = (-1842, -1841, -1796, -1792, -1788, -1, 0, 1, 19, 361, 362,
                 -361, -360, 1160, 1161, 183, 216, 172, 1137, 1159, -261)


def reality(run, env, years):
    """Constraints under which the years of the path are among the given
    ones and the abstract functions have their real values.  Used only to
    look for a counter-model that the real code can replay."""
    def table(e, f):
        out = z3.IntVal(f(years[-1]))
        for y in years[:-1]:
            out = z3.If(e == y, z3.IntVal(f(y)), out)
        return out

    def among(e):
        if z3.is_int_value(e):
            return z3.BoolVal(env.Y.get(e.as_long()) is not None)
        return z3.Or([e == y for y in years])

    Y = env.Y
    cs = []
    for t, (y, m, d) in run.memo.get('ords', []):
        y, m, d = [z3.simplify(sym.to_int(x).e) for x in (y, m, d)]
        if z3.is_int_value(y):
            k = y.as_long()
            b, l = z3.IntVal(Y[k]), z3.IntVal(Y[k + 1] - Y[k] - 365)
        else:
            cs.append(among(y))
            b = table(y, lambda k: Y[k])
            l = table(y, lambda k: Y[k + 1] - Y[k] - 365)
        doy = z3.If(m == 0, 342 + d, z3.If(m == 19, 346 + l + d,
                                           (m - 1) * 19 + d))
        cs.append(t == b - Y[E.MINYEAR] + ORD1 - 1 + doy)
    if env.LEAP is not None:
        f = z3.Function('leap', z3.IntSort(), z3.IntSort())
        for e in run.memo.get('leaps', []):
            if z3.is_int_value(e):
                k = e.as_long()
                cs.append(f(e) == Y[k + 1] - Y[k] - 365)
            else:
                cs += [among(e), f(e) == table(
                    e, lambda k: Y[k + 1] - Y[k] - 365)]
    for e, v in run.memo.get('Y-terms', []):
        cs += [among(e), v == table(e, lambda k: Y[k])]
    return cs


# --------------------------------------------------------------- contracts

def is_leap(env):
    """C01.leap_flag and C01.years prove it.  For units that do not number
    days: the leap years are an arbitrary set."""
    f = z3.Function('leap', z3.IntSort(), z3.IntSort())

    def leap_of(y):
        r = sym.run()
        e = z3.simplify(sym.to_int(y).e)
        seen = r.memo.setdefault('leaps', [])
        if not any(e.eq(x) for x in seen):
            seen.append(e)
            r.add(f(e) >= 0, f(e) <= 1)
        return SInt(f(e), 0, 1)
    env.LEAP = leap_of

    def is_leap_year(self, year):
        if not is_sym(year):
            return env.Y[year + 1] - env.Y[year] == 366
        if not bool(sym.sand(year >= E.MINYEAR - 1, year <= E.MAXYEAR)):
            raise KeyError('year')
        return leap_of(year) == 1
    E.stub(env, env.BC, '_is_leap_year', is_leap_year)


def abstract_ord(env):
    """For units in which the day number is any function of the date with
    values in the range that C02.range proves."""
    f = z3.Function('ord', *[z3.IntSort()] * 4)

    def ord_of(y, m, d):
        r = sym.run()
        t = f(*[z3.simplify(sym.to_int(x).e) for x in (y, m, d)])
        if not any(t.eq(x) for x, _ in r.memo.setdefault('ords', [])):
            r.memo['ords'].append((t, (y, m, d)))
            r.add(t >= ORD1, t <= MAXORD)
        return SInt(t, ORD1, MAXORD)
    env.ORD = ord_of
    env.stubs.append('(day numbers abstract)')


def day_coeff(env):
    """C05.day_coeff enumerates it: Naw-Ruz of every year begins with the
    sunset of the local day (as a JD at noon) that the year table says."""
    import math

    def f(self, year):
        y0 = sym.to_int(year)
        if not bool(sym.sand(y0 >= E.MINYEAR - 1, y0 <= E.MAXYEAR + 1)):
            raise sym.Unsupported('_get_day_coeff precondition')
        return (env.YEAR(year) + 1721422 - self._days_in_years(year - 1) -
                math.floor(self._BADI_EPOCH + 1))
    E.stub(env, env.co_mod.Coefficients, '_get_day_coeff', f)


def check_date(env):
    """C05.check_date proves it."""
    from .engine import SymCtx

    def f(self, b_date, short_in=False):
        c = SymCtx(sym.run(), env)
        n = 3 if short_in else 5
        y, (m, d) = b_date[0], b_date[n - 2:n]
        t = [0 if x is None else x for x in b_date[n:]] + [0] * 4
        if not all(isinstance(x, (int, SInt)) for x in (
                *b_date[:n], *t[:2], t[3])):
            raise sym.Unsupported('_check_valid_badi_date precondition')
        ok = [m >= 0, m <= 19, d >= 1, t[0] >= 0, t[0] <= 24, t[1] >= 0,
              t[1] <= 59, t[2] >= 0, t[2] < 60, t[3] >= 0, t[3] <= 999999]
        if not short_in:
            k, v, y = b_date[:3]
            ok += [k >= -5, k <= 5, v >= 1, v <= 19, y >= 1, y <= 19]
            y = (k - 1) * 361 + (v - 1) * 19 + y
        ok += [y >= E.MINYEAR, y <= E.MAXYEAR]
        if not bool(c.all(*ok)):
            raise sym.Unsupported('_check_valid_badi_date precondition')
        if is_sym(y):
            h = sym.hinted(('year', y.e.get_id()), y,
                           lambda h: (y == h).e)
            y = y if h is None else h
        if not bool(d <= mlen(c, y, m)):
            raise sym.Unsupported('_check_valid_badi_date precondition')
    E.stub(env, env.BC, '_check_valid_badi_date', f)


CARRY = 2.4e-8      # days before the 24th hour is full


def hms_of_fraction(env):
    """C16.from_fraction and C28.hms prove it."""
    def f(self, dec, *, us=False):
        r = sym.run()
        dec = sym.to_real(dec)
        if us or not bool(sym.sand(dec >= 0, dec < 1)):
            raise sym.Unsupported('_hms_from_decimal_day precondition')
        h = SInt(r.fresh('h', z3.IntSort()), 0, 24)
        m = SInt(r.fresh('m', z3.IntSort()), 0, 59)
        v = r.fresh('s', z3.RealSort())
        s = SReal(v, F(0), F(60))
        t = z3.ToReal(h.e * 3600 + m.e * 60) + v - dec.e * 86400
        r.add(h.e >= 0, h.e <= 24, m.e >= 0, m.e <= 59, v >= 0, v < 60,
              t <= z3.Q(4, 1000), t >= z3.Q(-4, 1000),
              z3.Implies(dec.e <= sym._q(F(1 - CARRY)), h.e <= 23))
        return h, m, s
    E.stub(env, env.Base, '_hms_from_decimal_day', f)


def split_second(env):
    """C16.split_second proves it."""
    def f(self, second):
        r = sym.run()
        second = sym.to_real(second)
        if not bool(sym.sand(second >= 0, second < 60)):
            raise sym.Unsupported('_sec_microsec_from_seconds precondition')
        s = SInt(r.fresh('sec', z3.IntSort()), 0, 59)
        u = SInt(r.fresh('us', z3.IntSort()), 0, 999999)
        t = z3.ToReal(s.e) + z3.ToReal(u.e) / 10 ** 6 - second.e
        r.add(s.e >= 0, s.e <= 59, u.e >= 0, u.e <= 999999,
              t <= z3.Q(11, 10 ** 7), t >= z3.Q(-11, 10 ** 7))
        return s, u
    E.stub(env, env.Base, '_sec_microsec_from_seconds', f)


def days_before_year(env):
    """C02.days_before_year enumerates it for every year."""
    def f(self, year):
        if not (E.MINYEAR - 1 <= year) or not (year <= E.MAXYEAR + 1):
            raise sym.Unsupported('_days_before_year precondition')
        return env.YEAR(year) - env.Y[E.MINYEAR]
    E.stub(env, env.TDU, '_days_before_year', f)


def ymd2ord(env):
    """C02.ymd2ord proves it."""
    from .engine import SymCtx

    def f(self, year, month, day):
        c = SymCtx(sym.run(), env)
        if not bool(c.all(month >= 0, month <= 19, year >= E.MINYEAR - 1,
                          year <= E.MAXYEAR + 1)):
            raise sym.Unsupported('_ymd2ord precondition')
        if is_sym(month) and not bool(year <= E.MAXYEAR):
            raise sym.Unsupported('_ymd2ord precondition')
        r = c.run
        if is_sym(year) or is_sym(month) or is_sym(day):
            r.memo.setdefault('dates', []).append(
                ((year, month, day), spec_ord(c, year, month, day)))
        return code_ord(c, year, month, day)
    E.stub(env, env.TDU, '_ymd2ord', f)


def cmp_key(env):
    """C08.cmp_key proves it: keys compare as the day numbers do."""
    from .engine import SymCtx

    def f(self):
        c = SymCtx(sym.run(), env)
        return (spec_ord(c, *self._short_from_long_form()[:3]),)
    E.stub(env, env.date, '_cmp_key', f)


def ord2ymd(env):
    """C02.ord2ymd proves it, C06 the long form."""
    from .engine import SymCtx

    def f(self, n, *, short=False):
        r = sym.run()
        c = SymCtx(r, env)
        n = sym.to_int(n)
        if not bool(c.all(n >= ORD1, n <= MAXORD)):
            raise AssertionError('Invalid Rata Die')
        if bool(c.all(n >= GAP_ORD[0], n <= GAP_ORD[1])):
            raise ValueError('reform gap')
        key = ('ord2ymd', n.e.get_id())
        if key not in r.memo:
            y = SInt(r.fresh('oy', z3.IntSort()), E.MINYEAR, E.MAXYEAR)
            m = SInt(r.fresh('om', z3.IntSort()), 0, 19)
            d = SInt(r.fresh('od', z3.IntSort()), 1, 19)
            r.add(y.e >= E.MINYEAR, y.e <= E.MAXYEAR, m.e >= 0, m.e <= 19,
                  d.e >= 1)
            r.add((d <= mlen(c, y, m)).e, (spec_ord(c, y, m, d) == n).e)
            # C02.injective: the date of a number is unique
            for (y2, m2, d2), o in r.memo.get('dates', []):
                r.add(z3.Implies((o == n).e, z3.And(
                    (y == y2).e, (m == m2).e, (d == d2).e)))
            r.memo.setdefault('dates', []).append(((y, m, d), n))
            r.memo[key] = ((y, m, d), n.e)
        y, m, d = r.memo[key][0]
        if short:
            return y, m, d
        return self.long_date_from_short_date((y, m, d), trim=True)
    E.stub(env, env.TDU, '_ord2ymd', f)


def long_form(env):
    """C06.long and C06.short prove them."""
    from .engine import SymCtx

    def split(c, y):
        y = sym.to_int(y)
        r = c.run
        key = ('split', y.e.get_id())
        if key not in r.memo:
            k, v, w = [r.fresh(n, z3.IntSort()) for n in 'kvw']
            r.add(y.e == (k - 1) * 361 + (v - 1) * 19 + w, k >= -5, k <= 4,
                  v >= 1, v <= 19, w >= 1, w <= 19)
            r.memo[key] = ((SInt(k, -5, 4), SInt(v, 1, 19), SInt(w, 1, 19)),
                           y)
        return r.memo[key][0]

    def long(self, date, *, trim=False):
        c = SymCtx(sym.run(), env)
        y, m, d = date[:3]
        hms = self._get_hms(date, short_in=True)
        if trim:
            hms = self._trim_hms(hms)
        if not bool(c.all(y >= E.MINYEAR, y <= E.MAXYEAR)):
            raise sym.Unsupported('long_date_from_short_date precondition')
        self._check_valid_badi_date(tuple(date), short_in=True)
        return split(c, y) + (m, d) + hms
    E.stub(env, env.BC, 'long_date_from_short_date', long)


SUNSET_STEP = 0.0011        # days


def sunset_pairs(env):
    """The same, and two days that follow one another have their sunsets one
    day apart, up to 0.0011 days (C05.sunset_window)."""
    sunset_tehran(env, True)


def sunset_tehran(env, pairs=False):
    """C05.sunset_window enumerates it for every civil day of the calendar,
    C05.sunset_by_day proves that it depends on D only:
    at the Tehran reference point the sunset of the local day D (noon D.0)
    is between D + 0.05 and D + 0.17 UT."""
    lat, lon = env.BC._BAHAI_LOCATION[:2]

    def f(self, jd, la, lo, *, offset=None):
        r = sym.run()
        if (la, lo) != (lat, lon) or offset is not None:
            raise sym.Unsupported('_sun_setting precondition')
        jd = sym.to_real(jd)
        D = (jd + lon / 360.0 + 0.5).__floor__()
        if not bool(sym.sand(D >= 1721000, D <= 2819000)):
            raise sym.Unsupported('_sun_setting precondition')
        if bool(D >= 2 ** 21):      # the spacing of the floats
            D, g = SInt(D.e, max(D.lo, 2 ** 21), min(D.hi, 2819000)), -31
        else:
            D, g = SInt(D.e, max(D.lo, 1721000), min(D.hi, 2 ** 21 - 1)), -32
        e = z3.simplify(D.e)
        for e2, _, res in r.memo.setdefault('sunset', []):
            if e2.eq(e):
                return res
        v = r.fresh('sunset', z3.RealSort())
        lo, hi = F(5, 100), F(17, 100)
        r.add(v >= sym._q(lo), v <= sym._q(hi))
        res = SReal(v, D.lo + lo, D.hi + hi, g, ip=e, rlo=lo, rhi=hi)
        for e2, v2, _ in r.memo['sunset']:      # a function of D
            r.add(z3.Implies(e == e2, v == v2))
            if pairs:
                q = sym._q(F(SUNSET_STEP))
                for i in (1, 2):
                    r.add(z3.Implies(z3.Or(e == e2 + i, e2 == e + i), z3.And(
                        v - v2 <= q * i, v2 - v <= q * i)))
        r.memo['sunset'].append((e, v, res))
        return res
    E.stub(env, env.Base, '_sun_setting', f)


class NameOf(str):
    """The name of an offset, abstractly."""

    def __new__(cls, off):
        self = str.__new__(cls, 'UTC+?')
        self.off = off
        return self

    def __eq__(self, other):
        return (sym.deep_eq(self.off, other.off)
                if isinstance(other, NameOf) else False)

    def __ne__(self, other):
        return sym.snot(self == other)

    __hash__ = None


def tz_name(env):
    """C19.name and C19.distinct_texts: a function of the offset."""
    E.stub(env, env.timezone, '_name_from_offset', staticmethod(NameOf))
