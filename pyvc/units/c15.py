"""C15 Weekdays follow the seven-day cycle without a break."""
from ..core import unit
from .. import contracts as K, env as E
from ..objs import any_fields, make_dt, time_fields

ABS = [K.is_leap, K.abstract_ord, K.ymd2ord]
REAL = [K.ymd2ord]


def longs(env, tier):
    return [{'long': x} for x in (0, 1)]


@unit('C15', 'number', stubs=ABS, shards=longs,
      about='weekday(), isoweekday() of a date or datetime: the day number '
      'plus one modulo seven, in both forms')
def number(c):
    f, ymd = any_fields(c, long=c.bool('long'))
    c.known('KF-ORD', K.fudge(c, ymd[0]))
    a = c.m.date(*f)
    w = (K.spec_ord(c, *ymd) + 1) % 7
    c.require('weekday', a.weekday() == w, a.weekday())
    c.require('range', c.all(a.weekday() >= 0, a.weekday() <= 6))
    c.require('isoweekday', a.isoweekday() == w + 1)
    t = time_fields(c)
    b = make_dt(c, f, t)
    c.require('datetime', c.all(b.weekday() == w, b.isoweekday() == w + 1))


@unit('C15', 'next_day', stubs=REAL, shards=longs,
      about='the next date has the next weekday, across months, the '
      'intercalary days and years')
def next_day(c):
    f, (y, m, d) = any_fields(c, long=c.bool('long'))
    c.assume(c.no(c.all(y == E.MAXYEAR, m == 19, d == 19)))
    n = K.mlen(c, y, m)
    last = d == n
    m2 = c.ite(last, c.ite(m == 18, 0, c.ite(m == 0, 19, c.ite(
        m == 19, 1, m + 1))), m)
    y2 = c.ite(c.all(last, m == 19), y + 1, y)
    d2 = c.ite(last, 1, d + 1)
    c.known('KF-ORD', c.any(K.fudge(c, y), K.fudge(c, y2)))
    a = c.m.date(*f).weekday()
    b = c.m.date(y2, m2, d2).weekday()
    c.require('next', (b - a) % 7 == 1, (a, b))


def weekdays(env, tier):
    return [{'long': x, 'w': k} for x in (0, 1) for k in range(7)]


FULL = ('Jalál', 'Jamál', 'Kamál', 'Fiḍāl', '`Idāl', 'Istijlāl', 'Istiqlāl')


def named(c):
    f, ymd = any_fields(c, long=c.bool('long'))
    c.known('KF-ORD', K.fudge(c, ymd[0]))
    w = (K.spec_ord(c, *ymd) + 1) % 7
    if not c.symbolic:
        return f, w, FULL[w]
    k = c.int('w', 0, 6)
    c.assume(w == k)
    return f, k, FULL[k]


@unit('C15', 'names', stubs=ABS, shards=weekdays, samples=300,
      about='weekday name and time tuple agree with the number')
def names(c):
    f, k, full = named(c)
    a = c.m.date(*f)
    c.require('timetuple', a.timetuple().tm_wday == k)
    c.require('name', a.strftime('%A') == full, a.strftime('%A'))
    b = make_dt(c, f, (0, 0, 0, 0))
    c.require('datetime', b.timetuple().tm_wday == k)


@unit('C15', 'ctime', stubs=ABS, shards=weekdays, samples=300,
      about='ctime() begins with the name of the weekday')
def ctime(c):
    f, k, full = named(c)
    a = c.m.date(*f).ctime()
    c.require('date', a.split(' ')[0] == full, a)
    b = make_dt(c, f, (0, 0, 0, 0)).ctime()
    c.require('datetime', b.split(' ')[0] == full, b)
