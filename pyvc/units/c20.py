"""C20 Aware datetimes compare, subtract and hash by instant."""
from ..core import unit
from .. import contracts as K, sym
from ..objs import any_datetime, spec_us, DAY, any_tz

ABS = [K.is_leap, K.abstract_ord, K.ymd2ord, K.cmp_key]


def aware(c, p):
    """An aware datetime and its instant in microseconds."""
    tz, off = any_tz(c, p)
    fold = c.int(p + 'fold', 0, 1)
    a, f, t = any_datetime(c, p, tz=tz, fold=fold)
    c.known('KF-ORD', K.fudge(c, f[0]))
    return a, spec_us(c, f, t) - off, off


def near(c, p, a):
    """Often an instant close to that of a (concrete runs only)."""
    if c.symbolic or c.rng is None or c.rng.random() < .5:
        return
    for k in ('y', 'm', 'd', 'k', 'v', 'w', 'long', 'hh', 'mm', 'ss', 'us'):
        if 'a' + k in c.used:
            v = c.used['a' + k]
            if k == 'hh':
                d = c.rng.choice((0, 0, 1, -1, 3))
                v = min(23, max(0, v + d))
                c.vals.setdefault('boff', c.used['aoff'] + d * 3600 * 10 ** 6)
            c.vals.setdefault('b' + k, v)


@unit('C20', 'difference', stubs=ABS,
      about='a - b, for any two fixed offsets and forms')
def difference(c):
    a, u, _ = aware(c, 'a')
    near(c, 'b', a)
    b, v, _ = aware(c, 'b')
    r = a - b
    c.require('microseconds', r == c.m.timedelta(microseconds=u - v), r)


def longs(env, tier):
    return [{'along': x, 'blong': y} for x in (0, 1) for y in (0, 1)]


@unit('C20', 'order', stubs=ABS, shards=longs, tl=240,
      about='<, <=, ==, !=, >=, > of two aware datetimes')
def order(c):
    a, u, _ = aware(c, 'a')
    near(c, 'b', a)
    b, v, _ = aware(c, 'b')
    c.require('lt', (a < b) == (u < v), (u - v))
    c.require('gt', (a > b) == (u > v), (u - v))
    c.require('eq', (a == b) == (u == v), (u - v))
    c.require('ne', (a != b) == (u != v))
    c.require('le', (a <= b) == (u <= v))
    c.require('ge', (a >= b) == (u >= v))


@unit('C20', 'same_zone', stubs=ABS, shards=longs, tl=240,
      about='two datetimes with the same timezone object')
def same_zone(c):
    tz, off = any_tz(c, 'a')
    a, f, t = any_datetime(c, 'a', tz=tz)
    near(c, 'b', a)
    b, g, s = any_datetime(c, 'b', tz=tz)
    c.known('KF-ORD', K.fudge(c, f[0]))
    c.known('KF-ORD', K.fudge(c, g[0]))
    u, v = spec_us(c, f, t), spec_us(c, g, s)
    c.require('lt', (a < b) == (u < v))
    c.require('eq', (a == b) == (u == v))
    c.require('gt', (a > b) == (u > v))
    c.require('difference', a - b == c.m.timedelta(microseconds=u - v))


@unit('C20', 'hash', stubs=ABS, shards=longs,
      about='equal instants have equal hashes')
def hashes(c):
    a, u, off = aware(c, 'a')
    near(c, 'b', a)
    b, v, _ = aware(c, 'b')
    if c.symbolic:
        c.assume(u == v)
        c.require('equal', a == b)
        c.require('hash', c.hash(a) == c.hash(b))
    else:
        c.require('hash', a != b or hash(a) == hash(b))


@unit('C20', 'hash_samples', sym=False, samples=1500,
      stubs=[], bounded='C20.hash_samples: pairs of equal instants in '
      'different zones are sampled (the proof is C20.hash)')
def hash_samples(c):
    a, u, off = aware(c, 'a')
    n = c.int('n', -DAY + 1, DAY - 1, special=(0, 3600 * 10 ** 6, 1, -1))
    if c.bool('whole'):
        n = int(n / 6e7) * 60 * 10 ** 6
    tz = c.m.timezone(c.m.timedelta(microseconds=n))
    x = u + n
    c.assume(K.ORD1 * DAY <= x < (K.MAXORD + 1) * DAY)
    c.assume(not K.GAP_ORD[0] <= x // DAY <= K.GAP_ORD[1])
    d = c.m.date.fromordinal(x // DAY, short=c.bool('bshort'))
    s, us = divmod(x % DAY, 10 ** 6)
    t = c.m.time(s // 3600, s // 60 % 60, s % 60, us, tz,
                 fold=c.int('nfold', 0, 1))
    c.known('KF-ORD', K.fudge(c, d._short_from_long_form()[0]))
    b = c.m.datetime.combine(d, t)
    c.require('equal', a == b and b == a and not a < b and not a > b, b)
    c.require('hash', hash(a) == hash(b), b)
    c.require('zero', a - b == c.m.timedelta(0))


@unit('C20', 'mixed', stubs=ABS, shards=longs,
      about='naive against aware: unequal, and not ordered or subtracted')
def mixed(c):
    a, _, _ = aware(c, 'a')
    b, _, _ = any_datetime(c, 'b', tz=None)
    for x, y in ((a, b), (b, a)):
        c.require('unequal', c.all((x == y) is False, (x != y) is True))
        for n, f in (('lt', lambda: x < y), ('le', lambda: x <= y),
                     ('gt', lambda: x > y), ('ge', lambda: x >= y),
                     ('sub', lambda: x - y)):
            _, e = c.exc(f, Exception)
            c.require(n, isinstance(e, TypeError), e)


@unit('C20', 'timestamp', stubs=ABS,
      about='timestamp() counts the seconds between instants')
def timestamp(c):
    a, u, _ = aware(c, 'a')
    e = c.m.datetime(1, 1, 1, tzinfo=c.m.dt.UTC)
    v = spec_us(c, (1, 1, 1), (0, 0, 0, 0))
    x, y = a.timestamp(), e.timestamp()
    s, us = (u - v) // 10 ** 6, (u - v) % 10 ** 6
    r = x - y - s                # in seconds; a float of 1e11 is 1.5e-5 wide
    if c.symbolic:
        us = us / 10 ** 6
    else:
        us /= 1e6
    c.require('difference', c.all(r - us <= 4e-5, us - r <= 4e-5), (r, us))
