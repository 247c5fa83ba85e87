"""The code under verification, and its instrumentation for a proof."""
import datetime as _pydt
import importlib
import os
import sys
import types

os.environ.setdefault('TZ', 'UTC')
os.environ.setdefault('TEST_RUNNING', 'true')
REPO = os.environ.get('PYVC_REPO', '/repo')

import z3  # noqa: E402

from . import sym  # noqa: E402
from .sym import SInt, Unsupported, is_sym  # noqa: E402

MINYEAR, MAXYEAR = -1842, 1161


def load():
    """Import /repo's working tree."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import badidatetime
    f = os.path.realpath(badidatetime.__file__)
    assert f.startswith(os.path.realpath(REPO) + os.sep), f
    mod = importlib.import_module     # the package rebinds "datetime"
    dt = mod('badidatetime.datetime')
    tdu = mod('badidatetime._timedateutils')
    bc = mod('badidatetime.badi_calendar')
    base = mod('badidatetime.base_calendar')
    gc = mod('badidatetime.gregorian_calendar')
    jp = mod('badidatetime.julian_period')
    st = mod('badidatetime._structures')
    sp = mod('badidatetime._strptime')
    co = mod('badidatetime._coefficients')
    env = types.SimpleNamespace(
        pkg=badidatetime, dt=dt, tdu_mod=tdu, bc_mod=bc, base_mod=base,
        gc_mod=gc, jp_mod=jp, st_mod=st, sp_mod=sp, co_mod=co,
        tdu=tdu._td_utils, TDU=tdu.TimeDateUtils, BC=bc.BahaiCalendar,
        Base=base.BaseCalendar, GC=gc.GregorianCalendar,
        date=dt.date, datetime=dt.datetime, time=dt.time,
        timezone=dt.timezone, TZ=dt.TZWithCoords,
        timedelta=_pydt.timedelta, symbolic=False, LEAP=None, ORD=None,
        Y=dict(bc.BahaiCalendar._YEAR_START), stubs=[])
    env.mods = [dt, tdu, bc, base, gc, jp, st, sp, co]
    env.table = bc.BahaiCalendar._YEAR_START
    env.YEAR = lambda k: env.Y[k]
    return env


class SymTable:
    """The year start table with symbolic keys: an uninterpreted function
    with the axioms of table_axioms(), which the check C01 evaluates on every
    pair of years of the real table."""

    def __init__(self, real):
        self.real = real
        self.lo, self.hi = min(real), max(real)
        self.f = z3.Function('Y', z3.IntSort(), z3.IntSort())
        self.env = envelope(real)

    def __contains__(self, k):
        if is_sym(k):
            return bool(sym.sand(k >= self.lo, k <= self.hi))
        return k in self.real

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __getitem__(self, k):
        if not is_sym(k):
            return self.real[k]
        if k not in self:
            raise KeyError('year')
        return self.at(k)

    def at(self, k):
        k = sym.to_int(k)
        r = sym.run()
        if k not in self:
            raise Unsupported('year outside of the table')
        e = z3.simplify(k.e)
        if z3.is_int_value(e):
            return self.real[e.as_long()]
        seen = r.memo.setdefault('Y-terms', [])
        for x, v in seen:       # a year already named by another term
            if e.eq(x) or r.valid(e == x):
                return SInt(v, self.real[self.lo], self.real[self.hi])
        v = self.f(e)
        if not any(e.eq(x) for x, _ in seen):
            a, b = self.env
            base = min(self.real)
            r.add(10000 * v - 3652425 * (e - base) >= a,
                  10000 * v - 3652425 * (e - base) <= b,
                  v >= self.real[self.lo], v <= self.real[self.hi])
            for x, y in seen + [(z3.IntVal(t), z3.IntVal(self.real[t]))
                                for t in (MINYEAR, MAXYEAR + 1)]:
                for p, q, dv in ((e, x, v - y), (x, e, y - v)):
                    d = p - q
                    r.add(z3.Implies(d > 0, z3.And(
                        dv >= 365 * d + d / 5,
                        dv <= 365 * d + (d + 3) / 4)))
            seen.append((e, v))
        return SInt(v, self.real[self.lo], self.real[self.hi])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'year table .{n}')


def envelope(real):
    base = min(real)
    dev = [10000 * v - 3652425 * (k - base) for k, v in real.items()]
    return min(dev), max(dev)


def table_axioms(real):
    """Evaluate the axioms of SymTable on the real table; the violated."""
    ks = sorted(real)
    if ks != list(range(MINYEAR - 1, MAXYEAR + 2)) or not all(
            type(v) is int for v in real.values()):
        return 0, ['keys']
    v = [real[k] for k in ks]
    bad = []
    for d in range(1, len(v)):
        ds = [b - a for a, b in zip(v, v[d:])]
        if min(ds) < 365 * d + d // 5 or max(ds) > 365 * d + (d + 3) // 4:
            bad.append((d, min(ds), max(ds)))
    return len(v) * (len(v) - 1) // 2, bad


def symbolic(env):
    """Instrument the loaded modules of this process for a proof."""
    for m in env.mods:
        for n, v in sym.INJECT.items():
            if n not in m.__dict__:
                setattr(m, n, v)
        for n, v in list(m.__dict__.items()):
            if v is sym._math:
                setattr(m, n, sym.x_math())
            elif v is _pydt.timedelta:
                setattr(m, n, sym.TdClass)
    env.timedelta = sym.TdClass
    env.pkg.timedelta = sym.TdClass
    t = SymTable(env.Y)
    env.BC._YEAR_START = t
    env.YEAR = lambda k: t.at(k) if is_sym(k) else env.Y[k]
    env.symbolic = True
    return env


def stub(env, cls, name, fn):
    """Replace a function by its contract (proved by a unit of its own)."""
    if name not in cls.__dict__:
        raise Unsupported(f'contract target {cls.__name__}.{name} is missing')
    setattr(cls, name, fn)
    env.stubs.append(f'{cls.__name__}.{name}')
