"""C14 Week dates identify days uniquely."""
from ..core import unit
from .. import contracts as K, env as E
from ..objs import any_fields

STUBS = [K.ymd2ord, K.ord2ymd, K.long_form]


def longs(env, tier):
    return [{'long': x} for x in (0, 1)]


def near_fudge(c, y):
    return c.any(*[c.any(y == k - 1, y == k, y == k + 1) for k in K.FUDGE])


def first(c, y):
    """The first day of week 1 of year y, and the weekday of its Naw-Ruz."""
    o = K.year_ord(c, y)
    w = (o + 1) % 7
    return o - w + c.ite(w > 3, 7, 0), w


@unit('C14', 'isocalendar', stubs=STUBS, shards=longs,
      about='year, week and weekday of any date: weekday is that of the '
      'date, the week is number 1 to 53 of the year that has its fourth day')
def isocalendar(c):
    f, ymd = any_fields(c, long=c.bool('long'))
    c.known('KF-ORD', near_fudge(c, ymd[0]))
    o = K.spec_ord(c, *ymd)
    a = c.m.date(*f)
    r = a.isocalendar()
    iy, wk, wd = r
    c.require('attributes', c.all(r.year == iy, r.week == wk,
                                  r.weekday == wd))
    c.require('weekday', c.all(wd == (o + 1) % 7 + 1, wd >= 1, wd <= 7), r)
    c.require('week', c.all(wk >= 1, wk <= 53), r)
    c.require('year-near', c.all(iy >= ymd[0] - 1, iy <= ymd[0] + 1), r)
    mid = o - (wd - 1) + 3              # the fourth day of the week
    s = K.year_ord(c, iy)
    c.require('majority', c.all(mid >= s, mid < next_year(c, iy)), r)
    c.require('number', (wk - 1) * 7 <= mid - s, r)
    c.require('number2', mid - s < wk * 7, r)


def next_year(c, y):
    """The number of the first day of year y + 1; 1162 has 365 days."""
    if not c.symbolic:
        return K.year_ord(c, y + 1) if y <= E.MAXYEAR else \
            K.year_ord(c, y) + 365
    last = bool(y >= E.MAXYEAR + 1)
    return K.year_ord(c, y) + 365 if last else K.year_ord(c, y + 1)


@unit('C14', 'consecutive', stubs=STUBS,
      about='the days of a week have the same year and week')
def consecutive(c):
    y, m, d = K.date_fields(c)
    c.known('KF-ORD', near_fudge(c, y))
    o = K.spec_ord(c, y, m, d)
    a = c.m.date(y, m, d).isocalendar()
    y2, m2, d2 = K.date_fields(c, 'n')
    p = K.spec_ord(c, y2, m2, d2)
    c.known('KF-ORD', near_fudge(c, y2))
    if c.symbolic:
        c.assume(p == o + 1)
    else:
        if o == K.MAXORD or K.GAP_ORD[0] <= o + 1 <= K.GAP_ORD[1]:
            c.assume(False)
        n = c.m.date.fromordinal(o + 1)
        y2, m2, d2 = n.b_date
        c.known('KF-ORD', near_fudge(c, y2))
    b = c.m.date(y2, m2, d2).isocalendar()
    same = c.all(b[0] == a[0], b[1] == a[1], b[2] == a[2] + 1)
    start = c.all(b[2] == 1, a[2] == 7, c.any(
        c.all(b[0] == a[0], b[1] == a[1] + 1),
        c.all(b[0] == a[0] + 1, b[1] == 1)))
    c.require('step', c.any(same, start), (a, b))


@unit('C14', 'roundtrip', stubs=STUBS, shards=longs, samples=3000,
      about='fromisocalendar(*d.isocalendar()) == d')
def roundtrip(c):
    long = c.bool('long')
    f, ymd = any_fields(c, long=long)
    c.known('KF-ORD', near_fudge(c, ymd[0]))
    a = c.m.date(*f)
    o = K.spec_ord(c, *ymd)
    r = a.isocalendar()
    iy, wk, wd = r
    k = (K.year_ord(c, iy) + 1) % 7 + 1
    c.known('KF-ISO', c.all(wk >= 52, c.any(k == 3, k == 4)))
    c.assume(c.any(o < K.GAP_ORD[0], o > K.GAP_ORD[1]))
    b = c.m.date.fromisocalendar(iy, wk, wd, short=not long)
    c.require('same', c.eq(b.b_date, f), (r, b))


@unit('C14', 'finding', sym=False, samples=0, cases=lambda env, tier, rng: [
    {'y': y} for y in range(E.MINYEAR, E.MAXYEAR + 1)],
    complete=('quick', 'thorough'),
    about='the deviation of finding KF-ISO is exactly the recorded one: in '
    'years whose first weekday is 3 or 4, week 52 is read seven days late '
    'and week 53 is rejected')
def finding(c):
    y = c.int('y', E.MINYEAR, E.MAXYEAR)
    if y in K.FUDGE or y + 1 in K.FUDGE:
        c.assume(False)
    s, w = first(c, y)
    if w + 1 not in (3, 4):
        return
    for wk in (52, 53):
        o = s + (wk - 1) * 7 + 3
        if o > K.MAXORD or wk == 53 and o >= K.year_ord(c, y + 1):
            continue
        d, e = c.exc(lambda: c.m.date.fromisocalendar(y, wk, 4), Exception)
        c.require('known', wk == 53 and isinstance(e, AssertionError)
                  or wk == 52 and d is not None and d.toordinal() in (o, o + 7),
                  (y, wk, d, e))
