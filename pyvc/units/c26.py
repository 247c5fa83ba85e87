"""C26 Results do not depend on what was computed before."""
import ast
import copy
import os
import pickle
import random

import z3

from ..core import unit
from .. import contracts as K, env as E, sym
from ..objs import any_date, any_datetime, time_fields


# ------------------------------------------------------------ nutation cache

def pure(c):
    """Any function from (time, degrees) to a pair."""
    seen = []

    def f(tc, degrees=False):
        if not c.symbolic:
            return tc * 3 + 1 + 7 * degrees, tc * 5 - 2 - 3 * degrees
        r, t = sym.run(), sym.to_real(tc)
        for t2, g2, v in seen:
            if g2 == bool(degrees) and r.valid(t.e == t2.e):
                return v
        v = tuple(sym.SReal(r.fresh(n, z3.RealSort()), None, None)
                  for n in ('lon', 'obl'))
        for t2, g2, v2 in seen:
            if g2 == bool(degrees):
                for a, b in zip(v, v2):
                    r.add(z3.Implies(t.e == t2.e, a.e == b.e))
        seen.append((t, bool(degrees), v))
        return v
    return f


def states(env, tier):
    return [{'ls': a, 'os': b, 'kind': k, 'same': s} for a in (0, 1, 2)
            for b in (0, 1, 2) for k in (0, 1, 2, 3) for s in (0, 1, 2)]


@unit('C26', 'nutation', shards=states, samples=1500,
      about='nutation with any consistent cache (inductive: the cache starts '
            'empty, and every call leaves it consistent)')
def nutation(c):
    bc = copy.copy(c.m.tdu)
    f = bc._nutation_obliquity_longitude = pure(c)
    if set(getattr(bc, '_nutation', ())) != {'lon', 'obl'}:
        raise sym.Unsupported('nutation cache') if c.symbolic else (
            engine_skip())
    t = [c.float(f't{i}', -30, 20, special=(0, 1.5)) for i in range(2)]
    ls, os_ = c.choice('ls', (0, 1, 2)), c.choice('os', (0, 1, 2))
    bc._nutation = {n: ((None, 0, False) if s == 0 else
                        (t[i], f(t[i], s == 2)[i], s == 2))
                    for n, i, s in (('lon', 0, ls), ('obl', 1, os_))}
    same = c.choice('same', (0, 1, 2))
    x = (t[0] if same == 0 else t[1] if same == 1 else
         c.float('x', -30, 20, special=(0, 1.5)))
    k = c.choice('kind', (0, 1, 2, 3))
    g = k >= 2
    fn = bc._nutation_obliquity if k & 1 else bc._nutation_longitude
    r = fn(x, degrees=True) if g else fn(x)
    c.require('same', r == f(x, g)[k & 1], r)
    for n, i in (('lon', 0), ('obl', 1)):
        a, v, d = bc._nutation[n]
        if a is not None:
            c.require('consistent', v == f(a, bool(d))[i], (n, a, v, d))


def engine_skip():
    from ..engine import Skip
    return Skip()


KEPT = {        # what may be assigned outside of a constructor
    'base_calendar.py': {'self._nutation'},
    'badi_calendar.py': set(), 'gregorian_calendar.py': set(),
    'julian_period.py': set(),
    '_timedateutils.py': {'self._locale_data'},
    '_structures.py': None, '_strptime.py': None, 'datetime.py': None}


def state_writes(path):
    """Assignments to attributes of self or of a class, or to globals, in
    the functions of a module other than __init__; names of the targets."""
    out = set()

    def base(t):
        while isinstance(t, ast.Subscript):
            t = t.value
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            return f'{t.value.id}.{t.attr}'
        return None
    for fn in ast.walk(ast.parse(open(path, encoding='utf-8').read())):
        if not isinstance(fn, ast.FunctionDef) or fn.name == '__init__':
            continue
        if fn.decorator_list and any('cache' in ast.dump(d)
                                     for d in fn.decorator_list):
            out.add(f'cached {fn.name}')
        names = {n for x in ast.walk(fn) if isinstance(x, ast.Global)
                 for n in x.names}
        out |= {f'global {n}' for n in names}
        for x in ast.walk(fn):
            ts = (x.targets if isinstance(x, ast.Assign) else [x.target]
                  if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else ())
            for t in ts:
                for y in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    b = base(y)
                    if b:
                        out.add(b)
    return out


@unit('C26', 'frame', samples=0, tl=60,
      about='the functions of the calendars write no state but the nutation '
            'cache, so the result of a conversion is a function of the '
            'arguments and the nutation contract')
def frame(c):
    for n, ok in KEPT.items():
        if ok is None:
            continue
        w = state_writes(os.path.join(E.REPO, 'badidatetime', n))
        if w - ok:
            raise sym.Unsupported(f'{n} writes {sorted(w - ok)}')
        c.require('frame', True)


# ------------------------------------------------------------- date objects

def state(a):
    out = [a.is_short, a.b_date] if hasattr(a, 'b_date') else []
    if hasattr(a, 'hour'):
        out += [a.hour, a.minute, a.second, a.microsecond, a.fold, a.tzinfo]
    if hasattr(a, 'b_date') and hasattr(a, 'hour'):
        out.append(a.b_time)
    return out


def others(c, a):
    """The operations that could leave something behind."""
    m = c.m
    td = m.timedelta(1)
    dated = hasattr(a, 'b_date')
    ops = [lambda: c.hash(a), lambda: a == a, lambda: a < a, lambda: a != 1,
           lambda: a.isoformat(), lambda: repr(a), lambda: str(a),
           lambda: a.__reduce_ex__(4), lambda: a.replace(),
           lambda: copy.copy(a)]
    if dated:
        ops += [lambda: a + td, lambda: a - td, lambda: a.toordinal(),
                lambda: a.weekday(), lambda: a.timetuple(), lambda: a - a,
                lambda: a.replace(day=1), lambda: a.isocalendar()]
        if hasattr(a, 'hour'):
            ops += [lambda: a.date(), lambda: a.time(), lambda: a.timetz(),
                    lambda: a.replace(hour=1), lambda: a.utcoffset()]
    else:
        ops += [lambda: a.replace(hour=1), lambda: a.utcoffset()]
    return ops


def made(c, kind, p=''):
    if kind == 0:
        return any_date(c, p)[0]
    if kind == 1:
        return any_datetime(c, p)[0]
    return c.m.time(*time_fields(c, p))


NOPS = (18, 23, 12)


def object_cases(env, tier):
    return [{'kind': k, 'op': i, 'long': b} for k in range(3)
            for i in range(NOPS[k]) for b in ((0, 1) if k < 2 else (0,))]


@unit('C26', 'objects', stubs=[K.is_leap, K.abstract_ord, K.ymd2ord,
                               K.ord2ymd, K.long_form, K.cmp_key],
      shards=object_cases, samples=3000, tl=300,
      about='one operation on a date, a datetime or a time leaves the '
            'visible fields and the hash as they were (so does a sequence)')
def objects(c):
    kind = c.int('kind', 0, 2)
    op = c.int('op', 0, max(NOPS) - 1)
    c.assume(op < NOPS[kind])
    a = made(c, kind)
    fresh = copy.copy(a)
    before = state(a)
    ops = others(c, a)
    assert len(ops) == NOPS[kind]
    try:
        ops[op]()
    except (OverflowError, ValueError, AssertionError):
        pass                    # out of the supported years: no result
    after = state(a)
    for x, y in zip(before, after):
        c.require('fields', c.eq(x, y) if isinstance(x, tuple) else x == y,
                  (before, after))
    c.require('hash', c.hash(a) == c.hash(fresh))



# ---------------------------------------------------------------- histories

JDS = (2451545.0, 2451545.25, 2451545.250001, 2451544.75, 2460388.6,
       2460389, 1826000.5, 2299100.25, 2700000.125, 2440585.5)
PLACES = ((35.69435, 51.288701, 3.5), (51.477928, -0.001545, 0),
          (35.69435, 51.288701, 0.0), (-33.9, 18.4, 2.0),
          (35.7796, -78.6382, -4.0), (35, 51, 3.5), (None, None, None))
DATES = ((181, 1, 1), (181, 0, 4), (182, 0, 5), (181, 19, 19), (1, 1, 1),
         (-1000, 5, 6), (0, 18, 18), (1161, 19, 19), (180, 1, 1),
         (181, 1, 2))
GDATES = ((2024, 3, 19), (2024, 3, 20), (2023, 3, 21), (1844, 3, 20),
          (1582, 10, 4), (1582, 10, 15), (100, 2, 28), (2000, 2, 29))
TIMES = ((0,), (12, 30), (23, 59, 59), (6, 30, 15, 250000))
FMTS = ('%d/%m/%Y', '%-d/%-m/%Y', '%Y-%m-%dT%H:%M:%S', '%D', '%Y %j',
        '%m/%d/%Y', '%Y%m%d', '%h %d %Y', '%B %d %Y', '%G-W%V-%u', '%d %q',
        '%K %v %y %m %d', '%Y-%m-%d %I:%M %p')
ASTRO = ('_nutation_longitude', '_nutation_obliquity', '_delta_t',
         '_sun_apparent_longitude', '_sun_apparent_declination',
         '_apparent_sidereal_time_greenwich', '_apparent_solar_longitude',
         '_sun_apparent_right_ascension', '_true_obliquity_of_ecliptic')


class Pool:
    """The few arguments that the calls of one history use."""

    def __init__(self, seed):
        r = random.Random(-1 - seed)
        self.kinds = r.sample(range(20), 2) + [r.randrange(20)]
        if r.random() < .4:
            self.kinds = list(range(20))
        self.jds = r.sample(JDS, 2)
        self.places = r.sample(PLACES, 3)
        self.gdates, self.dates = r.sample(GDATES, 2), r.sample(DATES, 2)
        self.fmts, self.astro = r.sample(FMTS, 3), r.sample(ASTRO, 3)


def step(env, rng, bc, objs, pool):
    """One call chosen by rng on the calendar bc or one of the objects."""
    k = rng.choice(pool.kinds)
    jd, place = rng.choice(pool.jds), rng.choice(pool.places)
    g = rng.choice(pool.gdates)
    d, t = rng.choice(pool.dates), rng.choice(TIMES)
    short, flag = rng.random() < .5, rng.random() < .5
    fmt = rng.choice(pool.fmts)
    a, b = rng.choice(objs), rng.choice(objs)
    if k == 0:
        n = rng.choice(pool.astro)
        kw = {'degrees': True} if flag and 'nutation' in n else {}
        return getattr(bc, n)((jd - 2451545) / 36525, **kw)
    if k == 1:
        return bc._nutation_longitude((jd - 2451545) / 36525, degrees=flag)
    if k == 2:
        return bc._nutation_obliquity((jd - 2451545) / 36525, degrees=flag)
    if k in (3, 4):
        la, lo = (place if place[0] is not None else PLACES[0])[:2]
        return (bc._sun_rising if flag else bc._sun_setting)(
            jd, la, lo, **({'offset': rng.choice((.8333, .25))}
                           if rng.random() < .4 else {}))
    if k == 5:
        kw = rng.choice(({}, {'us': True}, {'fraction': True},
                         {'trim': True}, {'rtd': True}))
        return bc.badi_date_from_jd(jd, *place, short=short, **kw)
    if k == 6:
        return bc.jd_from_badi_date(d + t, *place)
    if k == 7:
        return bc.badi_date_from_gregorian_date(
            g + t[:3], *place, short=short, us=flag)
    if k == 8:
        return bc.gregorian_date_from_badi_date(d + t, *place)
    if k == 9:
        x = rng.randrange(-10 ** 9, 4 * 10 ** 9, 10 ** 8) + .25 * flag
        return bc.badi_date_from_timestamp(x, *place, short=short, us=True)
    if k == 10:
        return bc.timestamp_from_badi_date(d + t, *place)
    if k == 11:
        return bc._find_moment_of_equinoxes_or_solstices(
            jd, rng.choice((0, 90, 180, 270)), zone=place[2] or 0.)
    if k == 12:
        return bc.long_date_from_short_date(d + t, trim=flag)
    if k == 13:
        return (bc.naw_ruz_g_date if flag else
                bc.first_day_of_ridvan_g_date)(d[0], *place, hms=short)
    if k == 14:
        gc = env.GC()
        return (gc.jd_from_gregorian_date(g, exact=flag),
                gc.gregorian_date_from_jd(jd, exact=flag, hms=short))
    if k == 15:
        return a.strftime(fmt)
    if k == 16:
        x = env.datetime.strptime
        s = env.datetime(181, 2, 3, None, None, 4, 5, 6).strftime(fmt)
        y = x(s, rng.choice((fmt, fmt, rng.choice(pool.fmts))))
        return repr(y)
    if k == 17:
        return [f(a, b) for f in (lambda p, q: p == q, lambda p, q: p < q,
                                  lambda p, q: p >= q, lambda p, q: p - q)]
    if k == 18:
        return hash(a), repr(a), a.isoformat()
    if rng.random() < .5:
        return repr(a + env.timedelta(rng.choice((1, -1, 19, 366))))
    return a.timetuple(), a.toordinal(), a.isocalendar()


def objects_of(env, seed):
    r = random.Random(seed)
    utc = env.timezone.utc
    out = []
    for i in range(3):
        d = r.choice(DATES[:8])
        out.append(env.date(*d))
        tz = r.choice((None, None, utc, env.dt.BADI))
        x = env.datetime(*d, None, None, r.randrange(24), r.randrange(60),
                         tzinfo=tz)
        out.append(x)
    return out


def outcome(env, seed, bc, objs, pool):
    try:
        return repr(step(env, random.Random(seed), bc, objs, pool))
    except Exception as e:
        return f'{type(e).__name__}: {e}'


def forked(f):
    """f() in a child process, so that it leaves nothing behind here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as o:
                pickle.dump(f(), o)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as i:
        data = i.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def visible(objs):
    return [repr(state(a)) for a in objs]


@unit('C26', 'histories', sym=False, samples=150,
      bounded='C26.histories: sequences of 30 calls on one calendar and six '
              'date objects are sampled; every call is repeated first thing '
              'in a process of its own',
      about='calls in sequence against the same calls on fresh objects')
def histories(c):
    seed, n = c.int('seed', 0, 10 ** 9), c.int('n', 30, 30)
    # few different calls, so that they follow each other in many orders
    r = random.Random(seed)
    few = [r.randrange(10 ** 9) for _ in range(12)]
    calls = [r.choice(few) for _ in range(n)]

    pool = Pool(seed)

    def run():
        bc, objs = c.m.BC(), objects_of(c.m, seed)
        v = visible(objs)
        out = [outcome(c.m, s, bc, objs, pool) for s in calls]
        return out, v, visible(objs)
    got, before, after = forked(run)
    c.require('fields', before == after, (before, after))
    for s in dict.fromkeys(calls):
        want = forked(lambda: outcome(c.m, s, c.m.BC(),
                                      objects_of(c.m, seed), pool))
        for i, (x, y) in enumerate(zip(calls, got)):
            if x == s:
                c.require('result', y == want, (i, y, want))
