"""C27 Local coordinates configure local time consistently."""
import contextlib
import datetime as _pydt

from ..core import unit
from .. import sym

NAMES = ('date', 'datetime', 'time', 'timezone', 'TZWithCoords', 'MINYEAR',
         'MAXYEAR', 'BADI_IANA', 'BADI_COORD', 'GMT_COORD', 'UTC', 'BADI',
         'LOCAL_COORD', 'LOCAL', 'MONTHNAMES', 'MONTHNAMES_ABV', 'DAYNAMES',
         'DAYNAMES_ABV')


def package(env):
    """The package itself in the proof, with tzlocal replaced by any zone."""
    for n, v in sym.INJECT.items():
        if n not in env.pkg.__dict__:
            setattr(env.pkg, n, v)


class Zone(_pydt.tzinfo):
    """The zone of the machine: any offset."""
    key = 'Any/Zone'

    def __init__(self, off, dst):
        self.off, self.shift = _pydt.timedelta(seconds=off), dst

    def utcoffset(self, dt):
        return self.off

    def dst(self, dt):
        return _pydt.timedelta(hours=self.shift)

    def tzname(self, dt):
        return 'ANY'


@contextlib.contextmanager
def zone(c, off, dst):
    """The offset of the local zone is this (tzlocal is an assumed contract:
    it returns the zone of the machine)."""
    pkg = c.m.pkg
    if c.symbolic:
        name = '_local_timezone_info'
        new = lambda: (off, dst, 'Any/Zone')        # noqa: E731
        if not hasattr(pkg, name):
            raise sym.Unsupported(name)
    else:
        name, new = 'get_localzone', lambda: Zone(off, dst)
        c.assume(hasattr(pkg, name))
    old = getattr(pkg, name)
    setattr(pkg, name, new)
    try:
        yield
    finally:
        setattr(pkg, name, old)
        pkg.set_local_coordinates()


def coord(c, n, kind, hi):
    if kind == 0:
        return c.int(n + 'i', -hi, hi, special=(0, 1, -hi, hi))
    return c.float(n + 'f', -hi, hi, special=(0., -0., 51.5, 1e-9))


def setting(c, n):
    """One call; the coordinates it should lead to, or None."""
    k = c.choice(n + 'kind', (0, 1, 2, 3, 4))
    if k == 4:
        c.m.pkg.set_local_coordinates()
        return None
    lat, lon = coord(c, n + 'la', k & 1, 90), coord(c, n + 'lo', k >> 1, 180)
    if c.bool(n + 'kw'):
        c.m.pkg.set_local_coordinates(lon=lon, lat=lat)
    else:
        c.m.pkg.set_local_coordinates(lat, lon)
    return lat, lon


def consistent(c, want, off):
    dt, pkg = c.m.dt, c.m.pkg
    got = dt.LOCAL_COORD
    if want is None:
        c.require('tehran', got == (35.69435, 51.288701, 3.5), got)
        seconds = 12600
    else:
        c.require('length', len(got) == 3, got)
        c.require('coordinates', c.all(got[0] == want[0], got[1] == want[1]),
                  got)
        e = got[2] * 3600 - off
        c.require('offset-hours', c.all(e < 1e-9, e > -1e-9), got)
        seconds = off
    for z in (dt.LOCAL, dt.timezone.local):
        e = (z.utcoffset(None) - c.m.timedelta(seconds=seconds)
             ) // c.m.timedelta(microseconds=1)
        c.require('local-zone', e == 0, (got, e))
    for n in NAMES:
        c.require('export', getattr(pkg, n) is getattr(dt, n), n)


def kinds(env, tier):
    return [{'akind': a, 'bkind': b} for a in range(5) for b in range(5)]


@unit('C27', 'settings', stubs=[package], samples=1500, shards=kinds,
      about='any setting after any other setting, with any offset of the '
            'local zone in whole seconds')
def settings(c):
    off = c.int('off', -86399, 86399, special=(
        0, 12600, 3600, -3600, -18000, 20700, 45900, -34200, 12344, -75))
    dst = bool(c.bool('dst'))
    with zone(c, off, dst):
        setting(c, 'a')
        want = setting(c, 'b')
        consistent(c, want, off)


@unit('C27', 'moved', sym=False, samples=1500,
      bounded='C27.moved: sequences of up to six settings with changes of '
              'the zone between them are sampled (C27.settings proves that '
              'the last setting decides)',
      about='longer histories with changes of the zone')
def moved(c):
    last = None
    for i in range(c.int('n', 1, 6)):
        off = c.int(f'off{i}', -86399, 86399, special=(0, 3600, -34200, 75))
        with zone(c, off, i & 1):
            want = setting(c, f's{i}')
            consistent(c, want, off)
        last = off
    consistent(c, None, last)       # reset when the zone is put back


@unit('C27', 'used', sym=False, samples=1500,
      bounded='C27.used: conversions of naive dates and datetimes use the '
              'configured coordinates, on samples',
      about='naive timestamps and dates are those of the coordinates set')
def used(c):
    off = c.int('q', -48, 56) * 900
    with zone(c, off, 0):
        want = setting(c, 'a')
        lc = (want + (off / 3600,)) if want else (35.69435, 51.288701, 3.5)
        c.assume(abs(lc[0]) < 60)
        t = c.int('t', -2 * 10 ** 10, 3 * 10 ** 10, special=(0,))
        tdu = c.m.tdu
        w = tdu.badi_date_from_timestamp(t, *lc, us=True, short=True)
        w = w + (0,) * (7 - len(w))
        c.assume(w[3] < 24 and w[5] < 60)
        a = c.m.date.fromtimestamp(t)
        c.require('date', a.b_date == w[:3], (a.b_date, w))
        b = c.m.datetime.fromtimestamp(t)
        c.require('datetime', b.b_date + b.b_time == w,
                  (b.b_date + b.b_time, w))
        x = tdu.timestamp_from_badi_date(w, *lc)
        c.require('timestamp', b.timestamp() == x, (b.timestamp(), x))
