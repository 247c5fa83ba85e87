"""C08 Ordering and hashing of dates and naive datetimes."""
from ..core import unit
from .. import contracts as K
from ..objs import any_date, any_datetime, spec_us


def relations(c, a, b, x, y):
    """a and b compare as the numbers x and y do."""
    lt, eq, gt = x < y, x == y, x > y
    c.require('lt', (a < b) == lt)
    c.require('eq', (a == b) == eq)
    c.require('gt', (a > b) == gt)
    c.require('le', (a <= b) == (x <= y))
    c.require('ge', (a >= b) == (x >= y))
    c.require('ne', (a != b) == (x != y))


def hashed(c, *objs):
    """The comparison may come after both objects were hashed."""
    if c.bool('hashed'):
        for x in objs:
            c.hash(x)


def near(c, p):
    """Half of the random second operands repeat the first."""
    if not c.symbolic and c.rng is not None and c.rng.random() < .5:
        for k in list(c.used):
            if k.startswith('a') and c.rng.random() < .8 and not \
                    k.endswith('long'):
                c.vals.setdefault('b' + k[1:], c.used[k])


@unit('C08', 'dates', about='all pairs of dates')
def dates(c):
    a, f = any_date(c, 'a')
    near(c, 'b')
    b, g = any_date(c, 'b')
    hashed(c, a, b)
    relations(c, a, b, K.spec_ord(c, *f), K.spec_ord(c, *g))


@unit('C08', 'cmp_key', about='the contract of _cmp_key: keys compare as '
      'the day numbers do')
def cmp_key(c):
    a, f = any_date(c, 'a')
    near(c, 'b')
    b, g = any_date(c, 'b')
    x, y = K.spec_ord(c, *f), K.spec_ord(c, *g)
    p, q = a._cmp_key(), b._cmp_key()
    c.require('eq', (p == q) == (x == y))
    c.require('lt', (p < q) == (x < y))


@unit('C08', 'dates_hash', about='equal dates have equal hashes')
def dates_hash(c):
    a, f = any_date(c, 'a')
    b, g = any_date(c, 'b')
    c.assume(c.eq(f, g))
    c.require('hash', c.hash(a) == c.hash(b))
    c.require('hash-again', c.hash(a) == c.hash(b))


def same_day(env, tier, rng):
    out = []
    for _ in range(60):
        y = rng.randint(-1842, 1161)
        k = (y + 360) // 361
        w = y - (k - 1) * 361 - 1
        m = rng.randint(0, 19)
        d = rng.randint(1, 4 if m == 0 else 19)
        t = [rng.randint(0, n) for n in (23, 59, 59, 999999)]
        v = {'along': 0, 'ay': y, 'am': m, 'ad': d, 'blong': 1, 'bk': k,
             'bv': w // 19 + 1, 'bw': w % 19 + 1, 'bm': m, 'bd': d}
        for p in 'ab':
            v.update(zip((p + 'hh', p + 'mm', p + 'ss', p + 'us'), t))
        out.append(v)
    return out


@unit('C08', 'hash_samples', sym=False, cases=same_day, samples=0,
      bounded='C08.hash_samples: a sample of the proved hash units')
def hash_samples(c):
    dates_hash(c)
    datetimes_hash(c)


def colliding(env, tier, rng):
    """Python's hash(-1) is hash(-2), so these keys have equal hashes."""
    out = []
    for v in same_day(env, tier, rng)[:20]:
        for y in ('ay', 'by'), ('by', 'ay'):
            w = dict(v, along=0, blong=0, hashed=1)
            w.update(zip(y, (-1, -2)))
            w.update(bm=w['am'], bd=w['ad'])
            out.append(w)
    return out


@unit('C08', 'collisions', sym=False, cases=colliding, samples=0,
      bounded='C08.collisions: comparing objects with equal hashes: a sample '
              'of the proved comparison units')
def collisions(c):
    dates(c)
    datetimes(c)


@unit('C08', 'datetimes', stubs=[K.is_leap, K.abstract_ord, K.cmp_key],
      about='all pairs of naive datetimes')
def datetimes(c):
    a, f, t = any_datetime(c, 'a')
    near(c, 'b')
    b, g, u = any_datetime(c, 'b')
    hashed(c, a, b)
    relations(c, a, b, spec_us(c, f, t), spec_us(c, g, u))


@unit('C08', 'datetimes_hash', samples=0,
      about='equal naive datetimes have equal hashes')
def datetimes_hash(c):
    a, f, t = any_datetime(c, 'a', fold=1 if c.bool('afold') else 0)
    b, g, u = any_datetime(c, 'b')
    c.assume(c.all(c.eq(f, g), c.eq(t, u)))
    c.require('hash', c.hash(a) == c.hash(b))
    c.require('eq', a == b)


@unit('C08', 'mixed', about='a date against a datetime')
def mixed(c):
    a, f = any_date(c, 'a')
    b, g, u = any_datetime(c, 'b')
    c.require('ne', not (a == b) and not (b == a) and a != b and b != a)
    for op in (lambda: b < a, lambda: b <= a, lambda: b > a, lambda: b >= a,
               lambda: a < b, lambda: a <= b, lambda: a > b, lambda: a >= b):
        _, e = c.exc(op, TypeError)
        c.require('TypeError', e is not None)
