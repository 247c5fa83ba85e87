"""C19 Fixed-offset timezones keep, bound and print their offset."""
from ..core import unit
from .. import contracts as K
from ..objs import any_datetime, DAY

H, M, S = 3600 * 10 ** 6, 60 * 10 ** 6, 10 ** 6
OFFS = (0, 1, -1, DAY - 1, DAY, -DAY, -DAY + 1, H, -H, 3 * H + 30 * M,
        -S, S, M - 1, M, -M, 2 * DAY)

TDMAX = 10 ** 9 * DAY - DAY


def wild_td(c):
    n = c.int('off', -TDMAX, TDMAX, special=OFFS) if (
        c.symbolic or c.bool('far')) else c.int(
            'near', -DAY - 5, DAY + 5, special=OFFS)
    return c.m.timedelta(microseconds=n), n


@unit('C19', 'accepted', about='accepted exactly between -24 and 24 hours')
def accepted(c):
    td, n = wild_td(c)
    k = c.choice('name', (0, 1))
    a, e = c.exc(lambda: c.m.timezone(td) if k else c.m.timezone(td, 'X'),
                 ValueError)
    ok = bool(c.all(n > -DAY, n < DAY))
    c.require('accepted-iff-in-range', (e is None) == ok, e)
    if ok:
        c.require('offset', a.utcoffset(None) == td)
        b = c.m.timezone(td)
        c.require('equal', c.all(a == b, c.no(a != b)))
        c.require('hash', c.hash(a) == c.hash(b))


@unit('C19', 'any_datetime', stubs=[K.is_leap],
      about='the same offset for every datetime, and through it')
def of_datetime(c):
    n = c.int('off', -DAY + 1, DAY - 1, special=OFFS)
    td = c.m.timedelta(microseconds=n)
    tz = c.m.timezone(td)
    a, _, _ = any_datetime(c, tz=tz, hmax=24)
    c.require('utcoffset', c.all(tz.utcoffset(a) == td, a.utcoffset() == td,
                                 a.timetz().utcoffset() == td))
    c.require('badioffset', tz.badioffset(a) == td - c.m.timedelta(
        hours=3, minutes=30))
    name = c.sstr(tz.tzname(None))
    c.require('tzname', c.all(c.sstr(a.tzname()) == name,
                              c.sstr(a.timetz().tzname()) == name))


@unit('C19', 'equality', about='equal exactly if the offsets are')
def equality(c):
    n = c.int('n', -DAY + 1, DAY - 1, special=OFFS)
    m = c.int('m', -DAY + 1, DAY - 1, special=OFFS)
    if not c.symbolic and c.rng is not None and c.rng.random() < .4:
        m = n
    a = c.m.timezone(c.m.timedelta(microseconds=n))
    b = c.m.timezone(c.m.timedelta(microseconds=m), 'Y')
    same = bool(n == m)
    c.require('equal', c.all((a == b) == same, (a != b) == (not same)))
    if same:
        c.require('hash', c.hash(a) == c.hash(b))


def two(c, n):
    return '%02d' % n


def spec_text(n):
    """The text of an offset in microseconds (concrete)."""
    s, n = ('-', -n) if n < 0 else ('+', n)
    h, n = divmod(n, H)
    m, n = divmod(n, M)
    x, u = divmod(n, S)
    return (f'{s}{h:02d}:{m:02d}' + (f':{x:02d}' if x or u else '') + (
        f'.{u:06d}' if u else ''))


def digits(c, text):
    """The numbers in an offset text: 0 where they are missing.  Branches
    only on the length."""
    v = []
    for i, j in ((1, 3), (4, 6), (7, 9), (10, 16)):
        v.append(int_of(c, text[i:j]) if len(text) >= j else 0)
    return v


def int_of(c, s):
    if c.symbolic:
        from ..sym import x_int
        return x_int(s)
    return int(s)


def check_text(c, text, n, label, plain_zero):
    """[+-]hh:mm[:ss[.ffffff]] with the value n."""
    text = c.sstr(text)
    c.require(label + '-length', len(text) in (6, 9, 16), text)
    c.require(label + '-layout', c.all(
        text[3] == ':', len(text) < 9 or text[6] == ':',
        len(text) < 16 or text[9] == '.'), text)
    neg = bool(text[0] == '-')
    c.require(label + '-sign', neg == bool(n < 0), text)
    c.require(label + '-plus', neg or bool(text[0] == '+'), text)
    h, m, s, u = digits(c, text)
    v = ((h * 60 + m) * 60 + s) * S + u
    c.require(label + '-value', v == (-n if neg else n), text)
    c.require(label + '-ranges', c.all(h <= 23, m <= 59, s <= 59))
    c.require(label + '-shortest', c.all(
        c.any(len(text) != 9, s != 0), c.any(len(text) != 16, u != 0)), text)


@unit('C19', 'iso_text', about='the offset text of ISO output')
def iso_text(c):
    n = c.int('off', -DAY + 1, DAY - 1, special=OFFS)
    td = c.m.timedelta(microseconds=n)
    tz = c.m.timezone(td)
    t = c.m.time(1, 2, 3, tzinfo=tz)
    text = c.sstr(t.isoformat())
    c.require('time', text[:8] == '01:02:03', text)
    check_text(c, text[8:], n, 'iso', True)
    a = c.m.datetime(181, 1, 1, None, None, 1, 2, 3, tzinfo=tz)
    x = c.sstr(a.isoformat())
    c.require('datetime', c.all(x[:19] == '0181-01-01T01:02:03',
                                x[19:] == text[8:]), x)


@unit('C19', 'name', about='the name made from the offset')
def name(c):
    n = c.int('off', -DAY + 1, DAY - 1, special=OFFS)
    td = c.m.timedelta(microseconds=n)
    x = c.sstr(c.m.timezone(td).tzname(None))
    c.require('UTC', x[:3] == 'UTC', x)
    if bool(n == 0):
        c.require('zero', len(x) == 3, x)
    else:
        check_text(c, x[3:], n, 'name', False)


@unit('C19', 'distinct_texts', sym=False, samples=4000,
      bounded='C19.distinct_texts: pairs of offsets are sampled (that the '
              'text determines the offset is proved by iso_text and name)')
def distinct_texts(c):
    n = c.int('n', -DAY + 1, DAY - 1, special=OFFS)
    k = c.choice('k', (1, 2, 10, S, 10 * S, M, 10 * M, H, 10 * H, 0))
    m = -n if k == 0 else n + k
    c.assume(-DAY < m < DAY and m != n)
    a, b = [c.m.timezone(c.m.timedelta(microseconds=x)) for x in (n, m)]
    c.require('names', a.tzname(None) != b.tzname(None))
    t = c.m.time(1)
    c.require('iso', t.replace(tzinfo=a).isoformat() != t.replace(
        tzinfo=b).isoformat())
    for z, v in ((a, n), (b, m)):
        c.require('text', t.replace(tzinfo=z).isoformat()[8:] == spec_text(v))


@unit('C19', 'types', sym=False, samples=100,
      bounded='C19.types: wrong argument types are sampled')
def types(c):
    bad = c.choice('bad', (None, 3, 'x', 3.5))
    _, e = c.exc(lambda: c.m.timezone(bad), Exception)
    c.require('offset', isinstance(e, TypeError), e)
    _, e = c.exc(lambda: c.m.timezone(c.m.timedelta(1), 5), Exception)
    c.require('name', isinstance(e, (TypeError, ValueError)), e)
