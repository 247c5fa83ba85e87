"""C29 Sunrise and sunset belong to the requested local day."""
import copy
import math
from fractions import Fraction as F

import z3

from ..core import unit
from .. import env as E, sym
from ..sym import SReal

D0, D1 = 1721000, 2819000


def rise_set_function(env):
    """Any function of the arguments, with values in [0, 1)."""
    def f(self, jd, lat, lon, *, offset, sr_ss='RISE'):
        r = sym.run()
        g = z3.Function('rise_set_' + sr_ss.upper(), *[z3.RealSort()] * 5)
        e = g(*[sym.to_real(x).e for x in (jd, lat, lon, offset)])
        r.add(e >= 0, e < 1)
        return SReal(e, F(0), F(1))
    E.stub(env, env.Base, '_rising_setting', f)


@unit('C29', 'day', stubs=[rise_set_function], samples=600,
      shards=lambda env, tier: [{'set': 0}, {'set': 1}],
      about='sunrise and sunset lie in the local mean solar day of the '
            'moment, whatever fraction of a day _rising_setting gives, and '
            'any two moments of one day give the same')
def day(c):
    D = c.int('D', D0, D1)
    lon = c.float('lon', -180, 180, special=(0, 180, -180, 51.288701))
    lat = c.float('lat', -60, 60, special=(0, 60, -60, 35.69435))
    # moments from the start to the end of the local day D
    f = c.float('f', -.5 + 1e-9, .5 - 1e-9)
    g = c.float('g', -.5 + 1e-9, .5 - 1e-9)
    c.hint(D)
    bc = c.m.tdu
    fn = bc._sun_setting if c.bool('set') else bc._sun_rising
    start = D - .5 - lon / 360
    a = fn(D - lon / 360 + f, lat, lon)
    c.require('in-day', c.all(a >= start - 6e-7, a <= start + 1 + 6e-7),
              (a, start))
    b = fn(D - lon / 360 + g, lat, lon)
    c.require('same', a == b, (a, b))


@unit('C29', 'midnight', stubs=[rise_set_function], samples=600,
      shards=lambda env, tier: [{'set': s, 'q': q}
                                for s in (0, 1) for q in range(-8, 9)],
      about='the first moment of a local day belongs to it, for every day and '
            'the longitudes whose fraction of the day is exact (multiples of '
            '22.5 degrees)')
def midnight(c):
    lon = c.int('q', -8, 8) * 22.5
    D = c.int('D', D0, D1)
    c.hint(D)
    bc = c.m.tdu
    fn = bc._sun_setting if c.bool('set') else bc._sun_rising
    start = D - .5 - lon / 360
    a = fn(start, 35.69435, lon)
    c.require('in-day', c.all(a >= start - 6e-7, a <= start + 1 + 6e-7),
              (a, start))
    b = fn(start + .25, 35.69435, lon)
    c.require('same', a == b, (a, b))


@unit('C29', 'iteration', samples=1500,
      shards=lambda env, tier: [{'set': 0}, {'set': 1}],
      about='_rising_setting, against any position of the sun and any '
            'corrections: the first estimate is the transit less or plus '
            'the hour angle, corrections are added until one is below '
            '0.0001 day, three at the most, and the result is a fraction of '
            'the day')
def iteration(c):
    rising = not c.bool('set')
    bc = copy.copy(c.m.tdu)
    jd, lon = c.float('jd', D0, D1), c.float('lon', -180, 180)
    al, st = c.float('al', 0, 360), c.float('st', 0, 360)
    h0 = c.float('h0', 0, 180)
    dms = [c.float(f'dm{i}', -.03, .03, special=(0, 9e-5, -9e-5, 1e-4))
           for i in range(3)]
    seen = []
    bc._delta_t = lambda jd, seconds=False: .001
    bc._sun_apparent_right_ascension = lambda tc: al
    bc._apparent_sidereal_time_greenwich = lambda tc: st
    bc._approx_local_hour_angle = lambda tc, lat, offset=.8333: h0

    def correction(tc, ast, dt, lat, lon, m, offset):
        seen.append(m)
        return dms[len(seen) - 1]
    bc._rise_set_correction = correction
    r = bc._rising_setting(jd, 35., lon, offset=.8333,
                           sr_ss='RISE' if rising else 'SET')
    c.assume(len(seen) > 0)         # else: not computed in these steps
    c.require('fraction', c.all(r >= 0, r <= 1), r)
    c.require('calls', 1 <= len(seen) <= 3, len(seen))
    for i in range(len(seen) - 1):
        c.require('not-converged', c.any(dms[i] >= 5e-5, dms[i] <= -5e-5))
    if len(seen) < 3:
        c.require('converged', c.all(dms[len(seen) - 1] < 2e-4,
                                     dms[len(seen) - 1] > -2e-4))
    e = (al - lon - st) / 360 + (-h0 if rising else h0) / 360 - r
    for x in dms[:len(seen)]:
        e = e + x
    if c.symbolic:
        ok = sym.SBool(z3.Or(*[z3.And(e.e - k <= z3.Q(1, 10 ** 9),
                                      e.e - k >= -z3.Q(1, 10 ** 9))
                               for k in range(-5, 5)]))
    else:
        ok = abs(e - round(e)) < 1e-9
    c.require('estimate', ok, r)


@unit('C29', 'hour_angle', samples=2000,
      about='_local_hour_angle is the angle between the meridian and the '
            'sun, from -180 to 180 degrees')
def hour_angle(c):
    srt = c.float('srt', -800, 1200, special=(0, 360, 180))
    lon = c.float('lon', -180, 180, special=(0, 180, -180))
    al = c.float('alpha', -5, 725, special=(0, 360, 359.99))
    h = c.m.tdu._local_hour_angle(srt, lon, al)
    c.require('range', c.all(h >= -180, h <= 180), h)
    if c.symbolic:
        x = srt.e + lon.e - al.e - h.e
        e = sym.SBool(z3.Or(*[z3.And(x - 360 * k <= z3.Q(1, 10 ** 9),
                                     x - 360 * k >= -z3.Q(1, 10 ** 9))
                              for k in range(-6, 7)]))
    else:
        x = srt + lon - al - h
        e = abs(x - 360 * round(x / 360)) < 1e-9
    c.require('angle', e, h)


@unit('C29', 'interpolation', samples=3000,
      shards=lambda env, tier: [{'wrap': i} for i in range(4)],
      about='_interpolation_from_three is the parabola through three values, '
            'over the step from 360 to 0 degrees as well')
def interpolation(c):
    w = c.int('wrap', 0, 3)
    if c.symbolic:
        c.run.nonlinear = True
    a, b = c.float('a', .8, 1.3), c.float('b', .8, 1.3)
    n = c.float('n', -1, 2, special=(0, 1, -1, .5))
    if w == 3:          # declination
        y2 = c.float('y', -24, 24)
        s = c.float('s', -1, 1), c.float('t', -1, 1)
        a, b = s
        y1, y3 = y2 - a, y2 + b
        r = c.m.tdu._interpolation_from_three(y1, y2, y3, n)
    else:
        y2 = (c.float('y', 1.3, 358.6) if w == 0 else
              c.float('y', 0, .7) if w == 1 else c.float('y', 359.3, 359.99))
        y1 = y2 - a + (360 if w == 1 else 0)
        y3 = y2 + b - (360 if w == 2 else 0)
        r = c.m.tdu._interpolation_from_three(y1, y2, y3, n, True)
    if c.symbolic:
        q = lambda x: x.e
        e = r.e - (q(y2) + q(n) / 2 * (q(a) + q(b) + q(n) * (q(b) - q(a))))
        ok = sym.SBool(z3.And(e <= z3.Q(1, 10 ** 9), e >= -z3.Q(1, 10 ** 9)))
    else:
        ok = abs(r - (y2 + n / 2 * (a + b + n * (b - a)))) < 1e-9
    c.require('parabola', ok, r)


def low_precision(T):
    """The sun's apparent right ascension and declination, degrees, from
    the low precision formulas of Meeus (within 0.01 degree)."""
    L0 = 280.46646 + 36000.76983 * T + .0003032 * T * T
    M = math.radians(357.52911 + 35999.05029 * T - .0001537 * T * T)
    C = ((1.914602 - .004817 * T - .000014 * T * T) * math.sin(M) +
         (.019993 - .000101 * T) * math.sin(2 * M) +
         .000289 * math.sin(3 * M))
    om = math.radians(125.04 - 1934.136 * T)
    lam = math.radians(L0 + C - .00569 - .00478 * math.sin(om))
    eps = math.radians(23.43929111 - .013004167 * T - 1.64e-7 * T * T +
                       5.04e-7 * T ** 3 + .00256 * math.cos(om))
    return (math.degrees(math.atan2(math.cos(eps) * math.sin(lam),
                                    math.cos(lam))) % 360,
            math.degrees(math.asin(math.sin(eps) * math.sin(lam))))


def altitude(st, lat, lon, ra, de):
    h, p, d = (math.radians(x) for x in (st + lon - ra, lat, de))
    return math.degrees(math.asin(
        math.sin(p) * math.sin(d) +
        math.cos(p) * math.cos(d) * math.cos(h)))


def turn(x):
    return (x + 180) % 360 - 180


def special_days(env, tier, rng):
    """Days about the equinoxes (right ascension 0 and 180 degrees) and
    solstices, in every century and at the corners of the coordinates."""
    out = []
    for cent in range(0, 30):
        g = cent * 100 + rng.randint(1, 100)
        eq = 1721423 + (g - 1) * 365.2425 + 79
        for s in (0, 93, 186, 276):
            for k in range(-2, 3):
                out.append({'jd': round(eq + s + k) + .5 *
                            rng.randint(0, 1),
                            'lat': rng.choice((-60., 0., 60., 35.69435)),
                            'lon': rng.choice((-180., 0., 180., 51.288701)),
                            'off': rng.randint(0, 2)})
    return out


@unit('C29', 'altitude', sym=False, cases=special_days, samples=2500,
      bounded='C29.altitude: the altitude of the sun at sunrise and sunset '
              'is sampled; series of trigonometric functions are outside '
              'the prover\'s theory')
def alt(c):
    jd = c.float('jd', D0 + 500, D1)
    lat = c.float('lat', -60, 60, special=(60., -60., 0.))
    lon = c.float('lon', -180, 180, special=(180., -180., 0.))
    off = c.choice('off', (.8333, 0., 6.))
    bc = c.m.tdu
    if off == .8333:
        a, b = bc._sun_rising(jd, lat, lon), bc._sun_setting(jd, lat, lon)
    else:
        a = bc._sun_rising(jd, lat, lon, offset=off)
        b = bc._sun_setting(jd, lat, lon, offset=off)
    x = jd + lon / 360 + .5
    if abs(x - round(x)) > 1e-6:
        D = math.floor(x)
        for t in (a, b):
            c.require('in-day', D - 1e-6 <= t + lon / 360 + .5 <=
                      D + 1 + 1e-6, (a, b, D))
    c.require('order', a < b, (a, b))
    c.known('KF-DELTAT', jd < 1721423 + 300 * 365.25)
    for t in (a, b):
        tc = (t - 2451545) / 36525
        st = bc._apparent_sidereal_time_greenwich(tc)
        h = altitude(st, lat, lon, bc._sun_apparent_right_ascension(tc),
                     bc._sun_apparent_declination(tc))
        # a thousandth, with the moment taken as Universal Time throughout
        if c.known_hit or abs(h + off) > .001:
            hit, c.known_hit = c.known_hit, None
            c.require('altitude', abs(h + off) <= .001, (t, h))
            c.known_hit = hit
        td = tc + bc._delta_t(t) / 36525
        h = altitude(st, lat, lon, bc._sun_apparent_right_ascension(td),
                     bc._sun_apparent_declination(td))
        c.require('altitude-delta-t', abs(h + off) <= .1, (t, h))


@unit('C29', 'position', sym=False, cases=special_days, samples=1500,
      bounded='C29.position: the position of the sun is sampled against '
              'the low precision formulas of Meeus')
def position(c):
    jd = c.float('jd', D0 + 500, D1)
    T = (jd - 2451545) / 36525
    bc, (ra, de) = c.m.tdu, low_precision(T)
    c.require('right-ascension',
              abs(turn(ra - bc._sun_apparent_right_ascension(T))) < .01, ra)
    c.require('declination', abs(de - bc._sun_apparent_declination(T)) <
              .01, de)
    st = (280.46061837 + 360.98564736629 * (jd - 2451545) +
          .000387933 * T * T)
    c.require('sidereal-time', abs(turn(
        st - bc._apparent_sidereal_time_greenwich(T))) < .01, st)
