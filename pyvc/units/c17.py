"""C17 Angles reduce to one turn and unit conversions invert."""
from fractions import Fraction as F

import z3

from ..core import unit
from .. import sym

EPS = 1e-9          # seconds of arc: float rounding


@unit('C17', 'coterminal', samples=3000,
      about='_coterminal_angle of every angle up to 1e15 degrees')
def coterminal(c):
    x = c.float('x', -10 ** 15, 10 ** 15, special=(
        0, 360, -360, 720, 359.99999999999994, -1e-20, 1e-20, -1e-13, 180,
        -180, -359.99999999999994, 36000.5, -36000.5))
    r = c.m.tdu._coterminal_angle(x)
    c.require('range', c.all(r >= 0, r <= 360), r)
    if c.symbolic:
        # the number of turns taken off, or one less
        n = z3.If(x.e >= 0, z3.ToInt(x.e / 360), -z3.ToInt(-x.e / 360))
        d = [x.e - r.e - 360 * z3.ToReal(n - k) for k in (0, 1)]
        e = sym.SBool(z3.Or(*[z3.And(y <= z3.Q(1, 10 ** 13),
                                     y >= z3.Q(-1, 10 ** 13)) for y in d]))
    else:
        d = F(x) - F(r)
        e = abs(d - 360 * round(d / 360)) <= F(1, 10 ** 13)
    c.require('whole-turns', e, r)


@unit('C17', 'coterminal_large', sym=False, samples=2000,
      about='_coterminal_angle of angles of any magnitude',
      bounded='C17.coterminal_large: angles above 1e15 degrees are sampled')
def coterminal_large(c):
    m, k = c.float('m', -1, 1), c.int('k', 40, 1022)
    x = m * 2.0 ** k
    r = c.m.tdu._coterminal_angle(x)
    d = F(x) - F(r)
    c.require('range', 0 <= r <= 360, r)
    c.require('whole-turns', abs(d - 360 * round(d / 360)) <= F(1, 10 ** 13))


DIRS = ('lat', 'LAT', 'latitude', 'Latitude', 'latit', 'lon', 'LON',
        'longitude', 'LONGITUDE', 'longi')


@unit('C17', 'dms', samples=3000,
      shards=lambda env, tier: [{'dir': i} for i in range(len(DIRS))],
      about='_dms_from_decimal, and back with _decimal_from_dms')
def dms(c):
    name = c.choice('dir', DIRS)
    x = c.float('x', -360, 360, special=(
        0, 1, -1, 59.999999, 51.7, -0.5, -1e-9, 1e-9, 90, -90, 180, -180,
        35.69435, 51.288701, -33.856769444444446))
    r = c.m.tdu._dms_from_decimal(x, name)
    d, m, s, letter = r
    pos, neg = 'NS' if name.lower().startswith('lat') else 'EW'
    c.require('range', c.all(d >= 0, d <= 360, m >= 0, m <= 60, s >= -1e-6,
                             s <= 60 + 1e-6), r)
    if bool(x < 0):
        c.require('letter', letter == neg, r)
    elif bool(x > 0):
        c.require('letter', letter == pos, r)
    else:
        c.require('letter', letter in (pos, neg), r)
    e = d + m / 60 + s / 3600 - abs(x)
    c.require('value', c.all(e <= EPS, e >= -EPS), r)
    b = c.m.tdu._decimal_from_dms(d, m, s, letter)
    e = b - x
    c.require('back', c.all(e <= EPS, e >= -EPS), (r, b))


@unit('C17', 'from_dms', samples=1000,
      shards=lambda env, tier: [{'dir': i} for i in range(8)],
      about='_decimal_from_dms of every angle with its direction, and back')
def from_dms(c):
    letter = c.choice('dir', 'NSEWnsew')
    d = c.int('d', 0, 180)
    m = c.int('m', 0, 59)
    s = c.float('s', 0, 60)
    c.assume(s < 60)
    x = c.m.tdu._decimal_from_dms(d, m, s, letter)
    sign = -1 if letter.upper() in 'SW' else 1
    e = x * sign - d - m / 60 - s / 3600
    c.require('value', c.all(e <= EPS, e >= -EPS), x)
    r = c.m.tdu._dms_from_decimal(x, 'lat' if letter.upper() in 'NS'
                                  else 'lon')
    e = r[0] + r[1] / 60 + r[2] / 3600 - d - m / 60 - s / 3600
    c.require('back', c.all(e <= EPS, e >= -EPS), r)
    if bool(x != 0):
        c.require('letter', r[3] == letter.upper(), r)


@unit('C17', 'negative_degrees',
      about='_decimal_from_dms ignores the sign of the degrees')
def negative_degrees(c):
    letter = c.choice('dir', 'NSEW')
    d = c.int('d', -180, 180)
    m = c.int('m', 0, 59)
    a = c.m.tdu._decimal_from_dms(d, m, 0, letter)
    b = c.m.tdu._decimal_from_dms(-d, m, 0, letter)
    c.require('same', c.all(a - b <= 1e-12, b - a <= 1e-12), (a, b))


@unit('C17', 'hms', samples=3000,
      about='_hms_from_degrees and back')
def hms(c):
    x = c.float('x', 0, 360, special=(0, 15, 30, 14.99999999, 360, 180.5))
    h, m, s = r = c.m.tdu._hms_from_degrees(x)
    c.require('range', c.all(h >= 0, h <= 24, m >= 0, m <= 60, s >= -1e-6,
                             s <= 60 + 1e-6), r)
    e = h * 15 + m / 4 + s / 240 - x
    c.require('value', c.all(e <= EPS, e >= -EPS), r)
    b = c.m.tdu._degrees_from_hms(h, m, s)
    e = b - x
    c.require('back', c.all(e <= EPS, e >= -EPS), b)


@unit('C17', 'from_hms', samples=1000,
      about='_degrees_from_hms and back')
def from_hms(c):
    h = c.int('h', 0, 23)
    m = c.int('m', 0, 59)
    s = c.float('s', 0, 60)
    c.assume(s < 60)
    x = c.m.tdu._degrees_from_hms(h, m, s)
    e = x - 15 * h - m / 4 - s / 240
    c.require('value', c.all(e <= EPS, e >= -EPS), x)
    r = c.m.tdu._hms_from_degrees(x)
    e = r[0] * 3600 + r[1] * 60 + r[2] - h * 3600 - m * 60 - s
    c.require('back', c.all(e <= 1e-6, e >= -1e-6), r)
