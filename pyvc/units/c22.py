"""C22 Replacing fields changes exactly the named fields."""
from itertools import product

from ..core import unit
from .. import contracts as K, env as E
from ..objs import any_fields, make_dt, time_fields
from .c07 import valid_date, valid_time

WILD = {
    'kull_i_shay': (-40, 40, (-6, -5, 4, 5, 0)),
    'vahid': (-5, 25, (0, 1, 19, 20)),
    'year': (-2000, 2000, (0, 1, 19, 20, -1842, 1161, -1843, 1162)),
    'month': (-3, 22, (-1, 0, 1, 18, 19, 20)),
    'day': (-3, 22, (0, 1, 4, 5, 6, 19, 20)),
    'hour': (-3, 30, (-1, 0, 23, 24, 25)),
    'minute': (-3, 70, (-1, 0, 59, 60)),
    'second': (-3, 70, (-1, 0, 59, 60, 61)),
    'microsecond': (-3, 1000010, (-1, 0, 999999, 10 ** 6)),
    'fold': (-1, 2, (0, 1)),
}
DATE = ('kull_i_shay', 'vahid', 'year', 'month', 'day')
TIME = ('hour', 'minute', 'second', 'microsecond', 'fold')


def given(c, names):
    """The named fields and their new values."""
    return {n: c.int('new_' + n, WILD[n][0], WILD[n][1], special=WILD[n][2])
            for n in names if c.bool('set_' + n)}


def report(a, long, time):
    out = ((a.kull_i_shay, a.vahid) if long else ()) + (
        a.year, a.month, a.day)
    if time:
        out += (a.hour, a.minute, a.second, a.microsecond, a.fold)
    return out


def date_masks(env, tier):
    return [dict(zip(['long'] + ['set_' + n for n in DATE], t))
            for t in product((0, 1), repeat=6)
            if t[0] or not (t[1] or t[2])]


def short_with_head(c):
    """A short form refuses Kull-i-Shay and Vahid."""
    return {n: c.int('new_' + n, WILD[n][0], WILD[n][1], special=WILD[n][2])
            for n in DATE[:2] if c.bool('set_' + n)}


@unit('C22', 'date', stubs=[K.is_leap], shards=date_masks, about='date.replace, every subset')
def date(c):
    long = c.bool('long')
    f, _ = any_fields(c, long=long)
    a = c.m.date(*f)
    names = DATE if long else DATE[2:]
    new = given(c, names)
    r, e = c.exc(lambda: a.replace(**new), Exception)
    want = tuple(new.get(n, x) for n, x in zip(names, f))
    ok = valid_date(c, long, want[:-2], *want[-2:])
    c.require('rejected-iff-invalid', (e is None) == ok, (e, want))
    c.require('original-unchanged', c.all(
        c.eq(report(a, long, False), f), c.eq(a.b_date, f)))
    if ok:
        c.require('type', type(r) is type(a))
        c.require('form', r.is_short == (not long))
        c.require('fields', c.all(c.eq(report(r, long, False), want),
                                  c.eq(r.b_date, want)), r)


@unit('C22', 'short_refuses_long', stubs=[K.is_leap], about='a short form has no Kull-i-Shay')
def short_refuses_long(c):
    dt = c.bool('dt')
    f, _ = any_fields(c, long=False)
    a = make_dt(c, f, time_fields(c)) if dt else c.m.date(*f)
    new = given(c, DATE[:2])
    c.assume(bool(new))
    r, e = c.exc(lambda: a.replace(**new), Exception)
    c.require('rejected', isinstance(e, ValueError), r)


@unit('C22', 'time', about='time.replace, every subset')
def time(c):
    t = time_fields(c, hmax=24)
    fold = c.int('fold', 0, 1)
    tz = (None, c.m.dt.UTC)[c.bool('aware')]
    a = c.m.time(*t, tz, fold=fold)
    new = given(c, TIME)
    kw = dict(new)
    k = c.choice('tz', (0, 1, 2))
    if k:
        kw['tzinfo'] = (None, c.m.dt.BADI)[k - 1]
    r, e = c.exc(lambda: a.replace(**kw), Exception)
    want = tuple(new.get(n, x) for n, x in zip(TIME, t + (fold,)))
    ok = valid_time(c, want)
    c.require('rejected-iff-invalid', (e is None) == ok, (e, want))

    def rep(a):
        return a.hour, a.minute, a.second, a.microsecond, a.fold
    c.require('original-unchanged', c.all(c.eq(rep(a), t + (fold,)),
                                          a.tzinfo is tz))
    if ok:
        c.require('type', type(r) is type(a))
        c.require('fields', c.eq(rep(r), want), r)
        c.require('tz', r.tzinfo is (kw['tzinfo'] if k else tz))


TZS = ((None, 0), ('UTC', 0), ('UTC', 1), (None, 2))


def tz_case(c):
    """(tzinfo before, replaced?, tzinfo after)"""
    tz, k = c.choice('tz', TZS)
    tz = tz and c.m.dt.UTC
    return tz, k, (tz, None, c.m.dt.BADI)[k]


def dt_masks(env, tier):
    n = ['set_' + x for x in DATE + TIME]
    return [dict(zip(['long', 'tz'] + n, (long, k) + m))
            for long in (0, 1) for m in product((0, 1), repeat=10)
            if long or not (m[0] or m[1])
            for k in ((0, 1, 2, 3) if tier == 'thorough' else
                      (sum(2 ** i * x for i, x in enumerate(m)) % 4,))]


def same(c, a, long, f, t, fold, tz):
    return c.all(c.eq(report(a, long, True), f + t + (fold,)),
                 c.eq(a.b_date, f), c.eq(a.b_time, t), a.tzinfo is tz,
                 a.is_short == (not long))


@unit('C22', 'datetime', stubs=[K.is_leap], shards=dt_masks, tl=240, samples=1000,
      about='datetime.replace, every subset of fields, with valid values')
def datetime(c):
    long = c.bool('long')
    f, _ = any_fields(c, long=long)
    t = time_fields(c, hmax=24)
    fold = c.int('fold', 0, 1)
    tz, k, tz2 = tz_case(c)
    a = make_dt(c, f, t, tz, fold)
    names = (DATE if long else DATE[2:])
    g, y = any_fields(c, 'n', long=long)
    u = time_fields(c, 'n', hmax=24) + (c.int('nfold', 0, 1),)
    new = {n: x for n, x in zip(names + TIME, g + u) if c.bool('set_' + n)}
    want = tuple(new.get(n, x) for n, x in zip(names + TIME, f + t + (fold,)))
    wd, wt = want[:len(f)], want[len(f):]
    c.assume(valid_date(c, long, wd[:-2], *wd[-2:]))
    kw = {'tzinfo': tz2} if k else {}
    r = a.replace(**kw, **new)
    c.require('original-unchanged', same(c, a, long, f, t, fold, tz))
    c.require('type', type(r) is type(a))
    c.require('fields', same(c, r, long, wd, wt[:4], wt[4], tz2), r)


def wild_masks(env, tier):
    out = []
    for long in (0, 1):
        names = (DATE if long else DATE[2:])
        sets = [{x} for x in names + TIME] + [
            {'month', 'day'}, {'year', 'month', 'day'}, {'hour', 'fold'},
            {'minute', 'microsecond'}, set(names), {'day', 'hour'}]
        if tier == 'thorough':
            sets += [set(TIME), set(names) | {'hour'}, {'year', 'second'}]
        for s in sets:
            out.append({'long': long, **{
                'set_' + x: int(x in s) for x in DATE + TIME}})
    return out


@unit('C22', 'datetime_wild', stubs=[K.is_leap], shards=wild_masks, tl=240, samples=1000,
      about='datetime.replace rejects exactly the invalid results (any '
            'values for single fields and the listed combinations; all '
            'subsets in the random runs)')
def datetime_wild(c):
    long = c.bool('long')
    f, _ = any_fields(c, long=long)
    t = time_fields(c, hmax=24)
    fold = c.int('fold', 0, 1)
    a = make_dt(c, f, t, None, fold)
    names = (DATE if long else DATE[2:])
    new = given(c, names + TIME)
    r, e = c.exc(lambda: a.replace(**new), Exception)
    want = tuple(new.get(n, x) for n, x in zip(names + TIME, f + t + (fold,)))
    wd, wt = want[:len(f)], want[len(f):]
    ok = valid_date(c, long, wd[:-2], *wd[-2:]) and valid_time(c, wt)
    c.require('rejected-iff-invalid', (e is None) == ok, (e, want))
    c.require('original-unchanged', same(c, a, long, f, t, fold, None))
    if ok:
        c.require('fields', same(c, r, long, wd, wt[:4], wt[4], None), r)
