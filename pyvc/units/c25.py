"""C25 Formatted dates carry the fields and parse back."""
import types

from ..core import unit
from .. import contracts as K, env as E, sym
from ..objs import any_fields, any_tz, make_dt, time_fields

ABS = [K.is_leap, K.abstract_ord, K.ymd2ord, K.tz_name, K.long_form]
DATE = ('%Y', '%m', '%-m', '%d', '%-d', '%e', '%j', '%-j', '%u', '%w', '%C',
        '%y', '%-y', '%:K', '%:V', '%G', '%V', '%a', '%A', '%b', '%B', '%h',
        'On %d-%m:%Y -: 100%%d', '%Y%m%d', '%-d%n%%%A')
TIME = ('%H', '%-H', '%k', '%M', '%-M', '%S', '%-S', '%f', '%T',
        '%H:%M:%S.%f', ':%H-%%H %f%f')


def names(c):
    t = c.m.TDU
    return t.DAYNAMES, t.DAYNAMES_ABV, t.MONTHNAMES, t.MONTHNAMES_ABV


def expected(c, d, ymd, t, kv, iso):
    """The text of directive d from the fields."""
    y, m, dd = ymd
    sign = '-' if bool(y < 0) else ''
    ay = -y if sign else y
    if d in ('j', '-j', 'u', 'w', 'a', 'A'):
        yd = K.doy(c, y, m, dd)
        wd = (K.spec_ord(c, y, m, dd) + 1) % 7
    if d == 'Y':
        return f'{sign}{ay:04}'
    if d in 'mdHMS':
        return f'{dict(m=m, d=dd, H=t[0], M=t[1], S=t[2])[d]:02}'
    if d in ('-m', '-d', '-H', '-M', '-S'):
        return f'{dict(m=m, d=dd, H=t[0], M=t[1], S=t[2])[d[1]]}'
    if d == 'k':
        return f'{t[0]:02}'
    if d == 'e':
        return f' {dd}' if bool(dd < 10) else f'{dd}'
    if d == 'f':
        return f'{t[3]:06}'
    if d == 'T':
        return f'{t[0]:02}:{t[1]:02}:{t[2]:02}'
    if d == 'j':
        return f'{yd:03}'
    if d == '-j':
        return f'{yd}'
    if d == 'u':
        return f'{wd + 1}'
    if d == 'w':
        return f'{wd}'
    if d == 'C':
        return f'{sign}{ay // 100:02}'
    if d in ('y', '-y'):
        return f'{y % 100:02}' if d == 'y' else f'{y % 100}'
    if d == ':K':
        return f'-{-kv[0]}' if bool(kv[0] < 0) else f'{kv[0]}'
    if d == ':V':
        return f'{kv[1]:02}'
    if d == 'G':
        return f'-{-iso[0]:04}' if bool(iso[0] < 0) else f'{iso[0]:04}'
    if d == 'V':
        return f'{iso[1]:02}'
    if d in 'aA':
        return names(c)[0 if d == 'A' else 1][wd]
    if d in 'bBh':
        return names(c)[2 if d == 'B' else 3][m]
    return {'n': '\n', '%': '%'}[d]


def text(c, fmt, *a):
    out, i = '', 0
    while i < len(fmt):
        if fmt[i] == '%':
            j = i + (3 if fmt[i + 1] in '-:' else 2)
            out += expected(c, fmt[i + 1:j], *a)
            i = j
        else:
            out += fmt[i]
            i += 1
    return out


def formats(env, tier):
    return [{'fmt': i, 'long': x} for i in range(len(DATE)) for x in (0, 1)]


@unit('C25', 'date', stubs=ABS, shards=formats, samples=4000,
      about='every date directive and literal text, of a date')
def date(c):
    fmt = c.choice('fmt', DATE)
    f, ymd = any_fields(c, long=c.bool('long'))
    c.known('KF-ORD', K.fudge(c, ymd[0]))
    if fmt in ('%y', '%-y'):
        c.assume(ymd[0] >= 0)
    if fmt in ('%G', '%V'):
        # the days beside those years have ISO dates in them
        c.known('KF-ORD', K.fudge(c, ymd[0] + 1))
        c.known('KF-ORD', K.fudge(c, ymd[0] - 1))
        c.assume(c.all(ymd[0] > E.MINYEAR, ymd[0] < E.MAXYEAR))
    a = c.m.date(*f)
    kv = iso = None
    if fmt in ('%:K', '%:V'):
        kv = (c.int('k', -5, 4), c.int('v', 1, 19), c.int('w', 1, 19))
        if c.symbolic:
            c.assume(ymd[0] == (kv[0] - 1) * 361 + (kv[1] - 1) * 19 + kv[2])
        else:
            y = ymd[0] - 1
            kv = (y // 361 + 1, y % 361 // 19 + 1, y % 19 + 1)
    if fmt in ('%G', '%V'):
        iso = tuple(a.isocalendar())
    s = c.sstr(a.strftime(fmt))
    want = c.sstr(text(c, fmt, ymd, (0, 0, 0, 0), kv, iso))
    c.require('text', s == want, (fmt, s, want))


def time_formats(env, tier):
    return [{'fmt': i, 'kind': k} for i in range(len(TIME)) for k in (0, 1)]


@unit('C25', 'time', stubs=ABS, shards=time_formats, samples=3000,
      about='every time directive, of a time and a datetime')
def time(c):
    fmt = c.choice('fmt', TIME)
    t = time_fields(c)
    if c.choice('kind', (0, 1)):
        f, ymd = any_fields(c, long=False)
        c.known('KF-ORD', K.fudge(c, ymd[0]))
        a = make_dt(c, f, t, None)
    else:
        ymd = (1, 1, 1)
        a = c.m.time(*t)
    s = c.sstr(a.strftime(fmt))
    want = c.sstr(text(c, fmt, ymd, t, None, None))
    c.require('text', s == want, (fmt, s, want))


PARSE = ('%Y-%m-%d', '%Y %m %d %H:%M:%S.%f', '%Y %j', '%H%M%S %Y%m%d',
         '%d %B %Y', '%A %d %B %Y %H:%M', '%y/%m/%d', '%Y-%j %A',
         '%G-%V-%u', '%G %V %w', 'x%%%Y -: %d.%m')


def directives(fmt):
    out, i = [], 0
    while i < len(fmt):
        if fmt[i] == '%':
            out.append(fmt[i + 1])
            i += 1
        i += 1
    return [d for d in out if d != '%']


def regex_groups(env):
    """The regular expression of the format finds the groups of the text
    (the units match and roundtrip)."""
    def f(self):
        lt = env.sp_mod._TimeRE_cache.locale_time
        return types.SimpleNamespace(
            groupdict=lambda: dict(env.groups)), lt
    E.stub(env, env.sp_mod.StrpTime, '_find_regex', f)


def formats_with(*ks):
    def f(env, tier):
        return [{'fmt': i} for i, x in enumerate(PARSE)
                if ('G' if 'G' in x else 'j' if 'j' in x else '') in ks]
    return f


def from_iso(env):
    """C14.roundtrip: the ISO date of a date denotes it."""
    def f(cls, year, week, day, *, short=False):
        iso, ymd = env.iso
        if not short or not bool(sym.sand(*[
                x == z for x, z in zip((year, week, day), iso)])):
            raise sym.Unsupported('another ISO date')
        return env.date(*ymd)
    E.stub(env, env.date, 'fromisocalendar', classmethod(f))


def parsed(c):
    fmt = c.choice('fmt', PARSE)
    y, m, d = ymd = K.date_fields(c)
    t = time_fields(c, hmax=23)
    ds = directives(fmt)
    if 'y' in ds:
        c.assume(c.all(y >= 0, y <= 99))
    t = tuple(x if k in ds else 0 for x, k in zip(t, 'HMSf'))
    iso = None
    if 'G' in ds and c.symbolic:
        iso = (c.int('iy', E.MINYEAR, E.MAXYEAR), c.int('iw', 1, 53),
               c.int('id', 1, 7))
        c.assume(c.all(iso[0] >= y - 1, iso[0] <= y + 1,
                       iso[2] == (K.spec_ord(c, *ymd) + 1) % 7 + 1))
        c.m.iso = iso, ymd
    elif 'G' in ds:
        c.known('KF-ORD', K.fudge(c, y + 1) or K.fudge(c, y - 1))
        c.assume(E.MINYEAR + 1 < y < E.MAXYEAR - 1)
        iso = tuple(c.m.date(*ymd).isocalendar())
        w1 = (K.spec_ord(c, iso[0], 1, 1) + 1) % 7
        c.known('KF-ISO', iso[1] >= 52 and w1 in (2, 3))
    if 'j' in ds:
        n = K.spec_ord(c, *ymd)
        c.assume(c.any(n < K.GAP_ORD[0], n > K.GAP_ORD[1]))
    if c.symbolic:
        c.m.groups = {k: sym.SStr(expected(c, k, ymd, t, None, iso))
                      for k in ds}
        s = ''
    else:
        s = text(c, fmt, ymd, t, None, iso)
    r = c.m.datetime.strptime(s, fmt)
    c.require('date', c.all(r.is_short, c.eq(r.b_date, ymd)), r)
    c.require('time', c.eq((r.hour, r.minute, r.second, r.microsecond), t),
              r)
    c.require('naive', r.tzinfo is None)


@unit('C25', 'parse', stubs=[K.is_leap, K.abstract_ord, K.ymd2ord,
                             K.long_form, regex_groups, from_iso],
      shards=formats_with('', 'G'), samples=3000,
      about='datetime.strptime() of the text has the fields')
def parse(c):
    parsed(c)


@unit('C25', 'parse_yday', stubs=[K.ymd2ord, K.ord2ymd,
                                  K.long_form, regex_groups],
      shards=formats_with('j'), samples=1000,
      about='datetime.strptime() of a year and day of the year')
def parse_yday(c):
    parsed(c)


# every text of a directive
TEXTS = {
    'Y': [f'{y:04}' if y >= 0 else f'-{-y:04}' for y in
          range(E.MINYEAR, E.MAXYEAR + 1)],
    'm': [f'{x:02}' for x in range(20)],
    'd': [f'{x:02}' for x in range(1, 20)],
    'H': [f'{x:02}' for x in range(24)],
    'M': [f'{x:02}' for x in range(60)],
    'S': [f'{x:02}' for x in range(60)],
    'j': [f'{x:03}' for x in range(1, 367)],
    'y': [f'{x:02}' for x in range(100)],
    'u': [str(x) for x in range(1, 8)],
    'w': [str(x) for x in range(7)],
    'V': [f'{x:02}' for x in range(1, 54)],
    'f': [f'{x:06}' for x in range(0, 10 ** 6, 997)],
}
TEXTS['G'] = TEXTS['Y']


def all_directives(env, tier, rng):
    return [{'d': i} for i in range(len(TEXTS) + 4)]


@unit('C25', 'match', sym=False, cases=all_directives, samples=0,
      bounded='C25.match: that the regular expression of a format finds the '
              'groups of its text is enumerated for every text of every '
              'directive, and for formats of several directives sampled',
      about='the pattern of a directive finds every text of it')
def match(c):
    i = c.int('d', 0, len(TEXTS) + 3)
    n = names(c)
    if i < len(TEXTS):
        d = sorted(TEXTS)[i]
        texts = TEXTS[d]
    else:
        d = 'AaBb'[i - len(TEXTS)]
        texts = list({'A': n[0], 'a': n[1], 'B': n[2].values(),
                      'b': n[3].values()}[d]) if d in 'Bb' else list(
            n['Aa'.index(d)])
    for x in texts:
        for pre, post in (('', ''), ('a.', '|'), ('(', '-z')):
            fmt = f'{pre}%{d}{post}'
            found, _ = c.m.sp_mod.StrpTime(f'{pre}{x}{post}',
                                           fmt)._find_regex()
            c.require('group', found.groupdict() == {d: x}, (fmt, x))


FULL = ('%Y-%m-%d', '%Y %m %d %H:%M:%S.%f', '%Y %j %f', '%H%M%S %Y%m%d',
        '%d %B %Y', '%A %d %B %Y %H:%M', '(%Y) 100%% -: %d.%m|%H:%M',
        '%Y%m%d%H%M%S')


@unit('C25', 'roundtrip', sym=False, samples=4000,
      bounded='C25.roundtrip: strftime and strptime of whole formats, the '
              'real regular expressions included, are sampled (a '
              'cross-check: the parts are proved)')
def roundtrip(c):
    fmt = c.choice('fmt', FULL)
    long = c.bool('long')
    f, ymd = any_fields(c, long=long)
    c.known('KF-ORD', K.fudge(c, ymd[0]))
    t = time_fields(c, hmax=23)
    a = make_dt(c, f, t, None)
    s = a.strftime(fmt)
    ds = directives(fmt)
    b = c.m.datetime.strptime(s, fmt)
    c.require('date', b.is_short and tuple(b.b_date) == ymd, (s, b))
    for k, x, z in zip('HMSf', t, (b.hour, b.minute, b.second,
                                   b.microsecond)):
        c.require('time', z == (x if k in ds else 0), (s, b))


def hours(env, tier):
    return [{'oh': h, 'om': 0} for h in range(-23, 24)]


@unit('C25', 'offset', stubs=[K.is_leap, K.abstract_ord, K.ymd2ord],
      samples=800, shards=hours,
      about='%z and %:z of whole hour offsets, and %z of naive objects')
def offset(c):
    f, ymd = any_fields(c, long=False)
    c.known('KF-ORD', K.fudge(c, ymd[0]))
    h, mi = c.int('oh', -23, 23), c.int('om', 0, 59)
    c.known('KF-PCTZ', c.any(mi != 0, h == 0))
    n = h * 60 + (-mi if bool(h < 0) else mi)
    tz = c.m.timezone(c.m.timedelta(minutes=n))
    a = make_dt(c, f, (7, 8, 9, 10), tz)
    s = '-' if bool(h < 0) else '+'
    ah = -h if s == '-' else h
    c.require('%z', c.sstr(a.strftime('%z')) ==
              c.sstr(f'{s}{ah:02}{mi:02}'), n)
    c.require('%:z', c.sstr(a.strftime('%:z')) ==
              c.sstr(f'{s}{ah:02}:{mi:02}'), n)
    b = make_dt(c, f, (7, 8, 9, 10), None)
    c.require('naive', b.strftime('x%z%:z%Z') == 'x')
