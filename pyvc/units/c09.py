"""C09 Adding and subtracting days to dates is exact."""
from ..core import unit
from .. import contracts as K
from ..objs import any_date, DAY

STUBS = [K.is_leap, K.abstract_ord, K.ymd2ord, K.ord2ymd, K.long_form]
TDMAX = 10 ** 9 * DAY - 1


def any_td(c, p='t'):
    near = [DAY * n for n in (0, 1, -1, 19, 365, 366, 1461, 10 ** 6)]
    if not c.symbolic and c.rng is not None and c.rng.random() < .6:
        n = c.rng.randint(-1100000, 1100000) * DAY + c.rng.choice(
            (0, 0, 1, -1, DAY - 1, c.rng.randrange(DAY)))
        c.vals.setdefault(p, n)
    return c.td(p, -(TDMAX - DAY), TDMAX, special=near)


@unit('C09', 'add', stubs=STUBS, about='date + timedelta, timedelta + date')
def add(c):
    a, f = any_date(c)
    td = any_td(c)
    c.known('KF-ORD', K.fudge(c, f[0]))
    n = K.spec_ord(c, *f) + td.days
    c.assume(c.any(n < K.GAP_ORD[0], n > K.GAP_ORD[1]))
    b, e = c.exc(lambda: a + td, OverflowError)
    inside = bool(c.all(n >= K.ORD1, n <= K.MAXORD))
    c.require('overflow-iff-outside', (e is None) == inside, (b, e))
    if e is None:
        c.require('type', type(b) is type(a))
        c.require('form', b.is_short == a.is_short)
        g = b._short_from_long_form()[:3]
        c.require('moved', K.spec_ord(c, *g) == n, b)
        c.require('radd', c.eq((td + a).b_date, b.b_date))


@unit('C09', 'sub', stubs=STUBS, about='date - timedelta')
def sub(c):
    a, f = any_date(c)
    td = any_td(c)
    c.known('KF-ORD', K.fudge(c, f[0]))
    n = K.spec_ord(c, *f) - td.days
    c.assume(c.any(n < K.GAP_ORD[0], n > K.GAP_ORD[1]))
    b, e = c.exc(lambda: a - td, OverflowError)
    inside = bool(c.all(n >= K.ORD1, n <= K.MAXORD))
    c.require('overflow-iff-outside', (e is None) == inside, (b, e))
    if e is None:
        c.require('form', b.is_short == a.is_short)
        g = b._short_from_long_form()[:3]
        c.require('moved', K.spec_ord(c, *g) == n, b)


@unit('C09', 'inverse', stubs=STUBS, about='(a + d) - d == a')
def inverse(c):
    a, f = any_date(c)
    k = c.int('k', -1100000, 1100000, special=(0, 1, -1, 19, -19, 365))
    td = c.m.timedelta(k)
    n = K.spec_ord(c, *f) + k
    o = K.spec_ord(c, *f)
    for x in (n, o):
        c.assume(c.any(x < K.GAP_ORD[0], x > K.GAP_ORD[1]))
    c.assume(c.all(n >= K.ORD1, n <= K.MAXORD))
    c.known('KF-ORD', K.fudge(c, f[0]))
    b = a + td
    c.known('KF-ORD', K.fudge(c, b._short_from_long_form()[0]))
    c.require('minus', c.eq((b - td).b_date, a.b_date))
    c.require('difference', b - a == td)
    c.require('difference-back', a - b == -td)


@unit('C09', 'difference', stubs=[K.is_leap, K.abstract_ord, K.ymd2ord], about='date - date')
def difference(c):
    a, f = any_date(c, 'a')
    b, g = any_date(c, 'b')
    c.known('KF-ORD', K.fudge(c, f[0]))
    c.known('KF-ORD', K.fudge(c, g[0]))
    r = a - b
    c.require('days', r == c.m.timedelta(
        K.spec_ord(c, *f) - K.spec_ord(c, *g)), r)
