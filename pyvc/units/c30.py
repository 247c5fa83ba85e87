"""C30 POSIX timestamps give the standard UTC Gregorian date and time."""
import datetime

from ..core import unit
from .. import loops
from ..loops import Invariant
from . import c03

END = 32503680000           # 3000-01-01T00:00:00Z
EPOCH = 719163              # day number of 1970-01-01
TOL = 5e-6                  # one ulp of the largest timestamp and rounding


class YearLoop(Invariant):
    """posix_timestamp: `days` is the number of the day counted from the
    first day of `year`, from 1."""
    names = ('leap', 'diy', 'days', 'year')

    def before(self, c, y):
        p = y - 1
        return 365 * p + p // 4 - p // 100 + p // 400

    def holds(self, c, L, L0):
        y, days = L['year'], L['days']
        return [('number', days + self.before(c, y) ==
                 L0['days'] + self.before(c, 1970)),
                ('low', days >= 1),
                ('year', c.all(y >= 1970, y <= 3001))]

    def fresh(self, c, L, L0):
        y = c.int('loop-year', 1970, 3001)
        days = L0['days'] + self.before(c, 1970) - self.before(c, y)
        c.assume(days >= 1)
        return {'year': y, 'days': days, 'leap': c03.leap(c, y),
                'diy': 365 + c03.leap(c, y)}

    def variant(self, c, L):
        return L['days']


def year_loop(env):
    loops.cut(env, env.GC, 'posix_timestamp', 0, YearLoop())


def some_t(c, q=0):
    if c.symbolic or 'D' in c.vals:
        # the local time D days H:M:S since 1970, without the zone
        D, H, M, S = (c.int('D', 0, END // 86400 - 1), c.int('H', 0, 23),
                      c.int('M', 0, 59), c.int('S', 0, 59))
        f = 0 if c.bool('whole') else c.float('f', 2e-5, 1 - 2e-5)
        c.m.ghost_t = D, H, M, S, f
        c.hint(D, H, M, S, H * 60 + M)
        return D * 86400 + H * 3600 + M * 60 + S - q * 900 + f
    c.m.ghost_t = None
    t = c.float('t', 0, END - 60000, special=(
        0, 59.9999996, 86399.9999999, 364 * 86400, 365 * 86400, 68169600,
        951782400, 951868799.5, 1719792000, 4107542400, 13574563200, 1e-7,
        29.9999996 + 1.7e9, 51048299.9999996))
    if not c.symbolic and c.vals.get('t') is None and c.rng is not None:
        k = c.rng.random()
        if k < .3:       # around midnights and new years
            t = c.rng.randrange(0, 376000) * 86400 + c.rng.choice(
                (0, 1, -1, .5, -1e-6, -3e-7))
        elif k < .5:
            y = c.rng.randrange(1971, 2999)
            t = (datetime.date(y, 1, 1).toordinal() - EPOCH +
                 c.rng.choice((0, -1, 58, 59, 60))) * 86400.0
        t = c.used['t'] = max(0.0, t)
    return t


@unit('C30', 'date', stubs=[year_loop], samples=6000,
      shards=lambda env, tier: [{'us': x, 'whole': w} for x in (0, 1)
                                for w in (0, 1)],
      bounded='C30.date: timestamps within 20 microseconds of a whole second '
              'but not whole are sampled',
      about='posix_timestamp for every timestamp and every zone of quarter '
            'hours')
def date(c):
    us = c.bool('us')
    q = c.int('quarters', -48, 56, special=(0, 14, -14))
    t = some_t(c, q)
    zone = q / 4
    c.assume(t + q * 900 >= 0)
    r = c.m.GC().posix_timestamp(t, zone=zone, us=us)
    c.require('length', len(r) == (7 if us else 6), r)
    y, m, d, hh, mm, ss = r[:6]
    c.require('date', c.all(y >= 1969, m >= 1, m <= 12, d >= 1), r)
    if c.symbolic and not isinstance(m, int):
        m = m.concrete()
    c.require('day', d <= c03.mlen(c, y, m), r)
    c.require('time', c.all(hh >= 0, hh <= 23, mm >= 0, mm <= 59, ss >= 0,
                            ss < 60), r)
    s = ss
    if us:
        c.require('us', c.all(r[6] >= 0, r[6] <= 999999), r)
        s = ss + r[6] / 1e6
    o = c03.ordinal(c, y, m, d) - EPOCH
    if c.m.ghost_t is not None:
        D, H, M, S, f = c.m.ghost_t
        c.require('instant', c.all(o == D, hh == H, mm == M), r)
        e = s - S - f
    else:
        e = o * 86400 + hh * 3600 + mm * 60 + s - (t + q * 900)
    tol = TOL * (2 if c.symbolic else 1)
    c.require('second', c.all(e <= tol, e >= -tol), r)


@unit('C30', 'stdlib', sym=False, samples=6000,
      about='against datetime of the standard library',
      bounded='C30.stdlib: the same dates as the standard library, sampled '
              '(a cross-check of the specification)')
def stdlib(c):
    t = some_t(c)
    r = c.m.GC().posix_timestamp(t)
    x = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
    y = datetime.datetime(*r[:5]) + datetime.timedelta(seconds=r[5])
    c.require('same', abs((x - y).total_seconds()) < 6e-6, (r, x))
