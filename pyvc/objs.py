"""Inputs that are objects of the library."""
from . import contracts as K, env as E


def long_fields(c, p=''):
    """(k, v, year in vahid) and the year of any supported year."""
    k = c.int(p + 'k', -5, 4, special=(0, 1, -5, 4))
    v = c.int(p + 'v', 1, 19, special=(1, 19))
    w = c.int(p + 'w', 1, 19, special=(1, 19))
    y = (k - 1) * 361 + (v - 1) * 19 + w
    c.assume(c.all(y >= E.MINYEAR, y <= E.MAXYEAR))
    return (k, v, w), y


def any_fields(c, p='', long=None):
    """Fields to construct from, and (y, m, d)."""
    if long is None:
        long = c.bool(p + 'long')
    if long:
        head, y = long_fields(c, p)
    else:
        y = c.int(p + 'y', E.MINYEAR, E.MAXYEAR, special=K.SPECIAL_YEARS)
        head = (y,)
    m = c.int(p + 'm', 0, 19, special=(0, 18, 19, 1))
    d = c.int(p + 'd', 1, 19, special=(1, 4, 5, 19))
    c.assume(d <= K.mlen(c, y, m))
    return head + (m, d), (y, m, d)


def any_date(c, p='', long=None):
    f, ymd = any_fields(c, p, long)
    return c.m.date(*f), ymd


def time_fields(c, p='', hmax=23, smax=59):
    return (c.int(p + 'hh', 0, hmax, special=(0, 23, 12)),
            c.int(p + 'mm', 0, 59, special=(0, 59)),
            c.int(p + 'ss', 0, smax, special=(0, 59)),
            c.int(p + 'us', 0, 999999, special=(0, 999999, 1)))


def any_datetime(c, p='', tz=None, long=None, fold=0, hmax=23, smax=59):
    """A datetime, (y, m, d) and (hour, minute, second, microsecond)."""
    f, ymd = any_fields(c, p, long)
    t = time_fields(c, p, hmax, smax)
    a = make_dt(c, f, t, tz, fold)
    return a, ymd, t


def make_dt(c, f, t, tz=None, fold=0):
    g = f if len(f) == 5 else f + (None, None)
    return c.m.datetime(*g, *t, tz, fold=fold)


def micros(t):
    return ((t[0] * 60 + t[1]) * 60 + t[2]) * 10 ** 6 + t[3]


DAY = 86400 * 10 ** 6


def spec_us(c, ymd, t):
    """Microseconds from day number 0."""
    return K.spec_ord(c, *ymd) * DAY + micros(t)


def any_tz(c, p='', lim=86400 * 10 ** 6 - 1, unit=1):
    """A fixed-offset timezone and its offset in microseconds."""
    n = c.int(p + 'off', -(lim // unit), lim // unit, special=(
        0, 3600 * 10 ** 6 // unit, -3600 * 10 ** 6 // unit,
        lim // unit, -(lim // unit), -1, 1))
    td = c.m.timedelta(microseconds=n * unit)
    return c.m.timezone(td), n * unit


def fields(a):
    """What an object reports."""
    out = tuple(a.b_date) if isinstance(a, object) and hasattr(
        a, 'b_date') else ()
    if hasattr(a, 'hour'):
        out += (a.hour, a.minute, a.second, a.microsecond, a.fold)
    return out
