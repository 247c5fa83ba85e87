"""C18 Time tuples agree with the object they come from."""
from ..core import unit
from .. import contracts as K
from ..objs import any_fields, any_tz, make_dt, time_fields, spec_us, DAY

ABS = [K.is_leap, K.abstract_ord, K.ymd2ord, K.tz_name]


def longs(env, tier):
    return [{'long': x} for x in (0, 1)]


def long_zone(env, tier):
    return [{'long': x, 'tz': k} for x in (0, 1) for k in (0, 1, 2, 3)]


def tuple_of(c, s, f, t, ymd, isdst):
    """The numeric fields of time tuple s."""
    w = (K.spec_ord(c, *ymd) + 1) % 7
    want = tuple(f) + tuple(t) + (w, K.doy(c, *ymd), isdst)
    got = tuple(s)
    n = len(f) + 6
    names = ('tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec',
             'tm_wday', 'tm_yday', 'tm_isdst', 'tm_zone', 'tm_gmtoff')
    if len(f) == 5:
        names = ('tm_kull_i_shay', 'tm_vahid') + names
    attr = tuple(getattr(s, x) for x in names)
    return c.all(len(got) == n + 2, c.eq(got[:n], want), c.eq(attr, got),
                 s.short == (len(f) == 3))


@unit('C18', 'date', stubs=ABS, shards=longs,
      about='timetuple() of a date')
def date(c):
    f, ymd = any_fields(c, long=c.bool('long'))
    c.known('KF-ORD', K.fudge(c, ymd[0]))
    s = c.m.date(*f).timetuple()
    c.require('fields', tuple_of(c, s, f, (0, 0, 0), ymd, -1), s)
    c.require('no-zone', s.tm_zone is None and s.tm_gmtoff is None, s)
    yd = K.doy(c, *ymd)
    c.require('yday', c.all(s.tm_yday == yd, yd >= 1, yd <= 366))


@unit('C18', 'datetime', stubs=ABS, shards=long_zone, samples=800,
      about='timetuple() of a datetime, naive, in UTC, or in any fixed '
      'offset zone')
def datetime(c):
    f, ymd = any_fields(c, long=c.bool('long'))
    c.known('KF-ORD', K.fudge(c, ymd[0]))
    t = time_fields(c)
    k = c.choice('tz', (0, 1, 2, 3))
    tz = off = name = None
    if k == 1:
        tz, off, name, dst = c.m.dt.UTC, 0, 'UTC', 0
    elif k == 2:
        tz, off = any_tz(c)
    elif k == 3:
        _, off = any_tz(c)
        name = 'Somewhere'
        tz = c.m.timezone(c.m.timedelta(microseconds=off), name)
    a = make_dt(c, f, t, tz, c.int('fold', 0, 1))
    s = a.timetuple()
    dst = -1
    if tz is not None and tz.dst(None) is not None:
        dst = 0                       # UTC keeps no summer time
    c.require('fields', tuple_of(c, s, f, t[:3], ymd, dst), s)
    if tz is None:
        c.require('no-zone', s.tm_zone is None and s.tm_gmtoff is None, s)
    else:
        g = s.tm_gmtoff
        c.require('zone', c.all(s.tm_zone == a.tzname(),
                                name is None or s.tm_zone == name), s)
        if g is None:
            c.require('zero-offset', off == 0, off)
        else:
            e = g * 1000000 - off
            c.require('offset', c.all(e <= .05, e >= -.05), (g, off))


@unit('C18', 'utctimetuple', stubs=ABS + [K.ord2ymd, K.long_form], shards=longs,
      samples=600, about='utctimetuple() of an aware datetime has the '
      'fields of its instant in UTC')
def utctimetuple(c):
    f, ymd = any_fields(c, long=c.bool('long'))
    t = time_fields(c)
    tz, off = any_tz(c)
    a = make_dt(c, f, t, tz)
    u = spec_us(c, ymd, t) - off
    n = u // DAY
    c.known('KF-ORD', K.fudge(c, ymd[0]))
    c.assume(c.all(n >= K.ORD1, n <= K.MAXORD))
    c.assume(c.any(off == 0, n < K.GAP_ORD[0], n > K.GAP_ORD[1]))
    s = a.utctimetuple()
    if s.short:
        y = s.tm_year
    else:
        y = (s.tm_kull_i_shay - 1) * 361 + (s.tm_vahid - 1) * 19 + s.tm_year
    c.known('KF-ORD', K.fudge(c, y))
    c.require('form', s.short == (len(f) == 3))
    g = (y, s.tm_mon, s.tm_mday)
    v = ((K.spec_ord(c, *g) * 24 + s.tm_hour) * 60 + s.tm_min) * 60 + s.tm_sec
    rest = u - v * 10 ** 6
    c.require('instant', c.all(rest >= 0, rest < 10 ** 6), s)
    c.require('range', c.all(s.tm_hour <= 23, s.tm_min <= 59, s.tm_sec <= 59,
                             s.tm_hour >= 0, s.tm_min >= 0, s.tm_sec >= 0))
    c.require('days', c.all(s.tm_wday == (K.spec_ord(c, *g) + 1) % 7,
                            s.tm_yday == K.doy(c, *g), s.tm_isdst == 0))
