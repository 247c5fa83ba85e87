"""C11 Fractional hours, minutes and seconds normalise into range."""
from ..core import unit
from .. import contracts as K

NEAR = tuple(w + e for w in (0, 1, 7, 23, 24, 59) for e in (
    1e-13, 1e-10, 1e-8, 1e-7, 4e-7, .1, .25, .5, .75, .9, 1 - 1e-7,
    1 - 4e-7, 1 - 6e-7, 1 - 1e-8, 1 - 1e-12)) + (
    1.35, 12.999999, 5.983333333333333, 29.99999999, 3.9833333333333334)


def make(c, f):
    k = c.choice('made', (0, 1, 2))
    if k == 0:
        return c.m.datetime(181, 2, 3, None, None, *f)
    if k == 1:
        return c.m.datetime(1, 10, 11, 2, 3, *f)
    return c.m.datetime.combine(c.m.date(181, 0, 4), c.m.time()).replace(
        **{n: x for n, x in zip(('hour', 'minute', 'second', 'microsecond'),
                                f)})


def whole(c, a, t, tol):
    """a has whole fields in range that amount to the t seconds."""
    x = (a.hour, a.minute, a.second, a.microsecond)
    for v in x:
        c.require('whole', v % 1 == 0, x)
    c.require('range', c.all(
        x[0] >= 0, x[0] <= 24, x[1] >= 0, x[1] <= 59, x[2] >= 0, x[2] <= 59,
        x[3] >= 0, x[3] <= 999999), x)
    c.require('b_time', c.eq(a.b_time, x), x)
    e = x[0] * 3600 + x[1] * 60 + x[2] + x[3] / 1e6 - t
    c.require('total', c.all(e <= tol, e >= -tol), x)


def made(env, tier):
    return [{'made': i} for i in range(3)]


@unit('C11', 'hour', stubs=[K.is_leap], samples=3000, shards=made,
      about='every hour below 25, as a float')
def hour(c):
    h = c.float('h', 0, 25 - 2.0 ** -48, special=NEAR)
    whole(c, make(c, (h, 0, 0, 0)), h * 3600, .005)


@unit('C11', 'minute', stubs=[K.is_leap], samples=3000, shards=made,
      about='every minute below 60, as a float, after any hour')
def minute(c):
    h = c.int('hh', 0, 24)
    m = c.float('m', 0, 60 - 2.0 ** -47, special=NEAR)
    whole(c, make(c, (h, m, 0, 0)), h * 3600 + m * 60, .005)


@unit('C11', 'second', stubs=[K.is_leap], samples=3000, shards=made,
      about='every second below 60, as a float, after any hour and minute')
def second(c):
    h, m = c.int('hh', 0, 24), c.int('mm', 0, 59)
    s = c.float('s', 0, 60 - 2.0 ** -47, special=NEAR)
    whole(c, make(c, (h, m, s, 0)), h * 3600 + m * 60 + s, 2e-6)


@unit('C11', 'rejected', stubs=[K.is_leap], samples=1500, shards=made,
      about='a fractional field followed by a smaller field that is not 0')
def rejected(c):
    i = c.choice('field', (0, 1, 2))
    f = [c.int('hh', 0, 24), c.int('mm', 0, 59, special=(0,)),
         c.int('ss', 0, 59, special=(0,)),
         c.int('us', 0, 999999, special=(0,))]
    hi = (24, 59, 59)[i]
    x = c.float('x', 0, hi + .75, special=NEAR)
    c.assume(x % 1 != 0)
    f[i] = x
    c.assume(c.any(*[v != 0 for v in f[i + 1:]]))
    _, e = c.exc(lambda: make(c, f), ValueError)
    c.require('rejected', e is not None, f)
