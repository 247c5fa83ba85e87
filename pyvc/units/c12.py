"""C12 Pickling and copying preserve date, time and timezone objects."""
import copy
import pickle

from ..core import unit
from .. import contracts as K, sym
from ..objs import any_fields, any_tz, make_dt, time_fields
from .c22 import report

PROTOCOLS = (2, 3, 4, 5)
WAYS = PROTOCOLS + ('copy', 'deepcopy')


def rebuild(r):
    """What pickle and copy do with a reduce value."""
    f, args = r[:2]
    x = f(*args)
    if len(r) > 2 and r[2] is not None:
        st = r[2]
        if hasattr(type(x), '__setstate__'):
            x.__setstate__(st)
        else:
            d, slots = st if isinstance(st, tuple) else (st, None)
            for k, v in {**(d or {}), **(slots or {})}.items():
                setattr(x, k, v)
    return x


def clone(c, a, way):
    """A pickled and unpickled, or a copied, object."""
    if c.symbolic:
        return rebuild(a.__reduce_ex__(4 if isinstance(way, str) else way))
    if way == 'copy':
        return copy.copy(a)
    if way == 'deepcopy':
        return copy.deepcopy(a)
    return pickle.loads(pickle.dumps(a, way))


def ways(env, tier):
    return [{'way': i, 'long': x} for i in range(6) for x in (0, 1)]


@unit('C12', 'date', stubs=[K.is_leap], shards=ways,
      about='date, every field value')
def date(c):
    way = c.choice('way', WAYS)
    long = c.bool('long')
    f, _ = any_fields(c, long=long)
    a = c.m.date(*f)
    b = clone(c, a, way)
    c.require('type', type(b) is type(a))
    c.require('form', b.is_short == (not long))
    c.require('fields', c.all(c.eq(report(b, long, False), f),
                              c.eq(b.b_date, f)), b)
    c.require('equal', b == a)


def zone_of(c):
    k = c.choice('tz', (0, 1, 2))
    return (None, c.m.dt.UTC, c.m.dt.BADI)[k]


def keeps_fold(way):
    return isinstance(way, str) or way >= 4


def same_zone(c, a, b):
    if a is None or b is None:
        return a is b
    return c.all(type(a) is type(b), a.utcoffset(None) == b.utcoffset(None),
                 a.tzname(None) == b.tzname(None), a == b)


@unit('C12', 'time', shards=lambda env, tier: [{'way': i} for i in range(6)],
      about='time, every field value')
def time(c):
    way = c.choice('way', WAYS)
    t = time_fields(c, hmax=24, smax=60)
    fold = c.int('fold', 0, 1)
    tz = zone_of(c)
    a = c.m.time(*t, tz, fold=fold)
    b = clone(c, a, way)
    c.require('type', type(b) is type(a))
    c.require('fields', c.eq((b.hour, b.minute, b.second, b.microsecond), t),
              b)
    c.require('fold', c.eq(b.fold, fold if keeps_fold(way) else 0), b)
    c.require('tz', same_zone(c, tz, b.tzinfo))
    c.require('equal', b == a)


@unit('C12', 'datetime', stubs=[K.is_leap], shards=ways,
      about='datetime, every field value')
def datetime(c):
    way = c.choice('way', WAYS)
    long = c.bool('long')
    f, _ = any_fields(c, long=long)
    t = time_fields(c, hmax=24, smax=60)
    fold = c.int('fold', 0, 1)
    tz = zone_of(c)
    a = make_dt(c, f, t, tz, fold)
    b = clone(c, a, way)
    c.require('type', type(b) is type(a))
    c.require('form', b.is_short == (not long))
    c.require('fields', c.all(
        c.eq(report(b, long, True)[:-1], f + t), c.eq(b.b_date, f),
        c.eq(b.b_time, t)), b)
    c.require('fold', c.eq(b.fold, fold if keeps_fold(way) else 0), b)
    c.require('tz', same_zone(c, tz, b.tzinfo))
    c.require('equal', b == a)


@unit('C12', 'timezone', about='timezone, every offset and some names')
def timezone(c):
    way = c.choice('way', WAYS)
    n = c.int('off', -86400 * 10 ** 6 + 1, 86400 * 10 ** 6 - 1,
              special=(0, 1, -1))
    td = c.m.timedelta(microseconds=n)
    name = c.choice('name', (None, 'X', 'Asia/Tehran', 'UTC', 'é'))
    a = c.m.timezone(td) if name is None else c.m.timezone(td, name)
    b = clone(c, a, way)
    c.require('type', type(b) is type(a))
    c.require('offset', b.utcoffset(None) == td)
    c.require('name', c.sstr(b.tzname(None)) == c.sstr(a.tzname(None)))
    c.require('equal', b == a)


@unit('C12', 'coords', sym=False, samples=2500,
      bounded='C12.coords: TZWithCoords with sampled coordinates, zones and '
              'zoneinfo keys')
def coords(c):
    import zoneinfo
    way = c.choice('way', WAYS)
    lat = c.float('lat', -90, 90, special=(0,))
    lon = c.float('lon', -180, 180, special=(0,))
    zone = c.float('zone', -23.9, 23.9, special=(0, 3.5, -11))
    kind = c.choice('kind', ('none', 'key', 'zoneinfo', 'nozone'))
    key = c.choice('key', ('Asia/Tehran', 'UTC', 'America/New_York'))
    if kind == 'zoneinfo':
        try:
            zi = zoneinfo.ZoneInfo(key)
        except zoneinfo.ZoneInfoNotFoundError:
            c.assume(False)
        a = c.m.TZ.fromzoneinfo(zi, lat, lon, zone)
    elif kind == 'nozone':
        a = c.m.TZ(lat, lon)
    else:
        a = c.m.TZ(lat, lon, zone, **({'key': key} if kind == 'key' else {}))
    b = clone(c, a, way)

    def rep(x):
        return (type(x), x.lat, x.lon, x.zone, x.key, x.coordinates,
                x.utcoffset(None), x.tzname(None), str(x), hasattr(x, '_zi'),
                getattr(getattr(x, '_zi', None), 'key', None))
    c.require('same', rep(a) == rep(b), (rep(a), rep(b)))
    c.require('equal', a == b)
    t = c.m.datetime(181, 1, 1, None, None, 12, tzinfo=a)
    u = clone(c, t, way)
    c.require('datetime', u == t and rep(u.tzinfo) == rep(a), u)
