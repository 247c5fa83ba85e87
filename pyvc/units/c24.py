"""C24 The year starts with the sunset before the March equinox."""
from ..core import unit
from .. import env as E

SEC = 1 / 86400
SEASONS = ((0, 3), (90, 6), (180, 9), (270, 12))
STEP = 25


def moment(c, g, i, **k):
    lam, month = SEASONS[i]
    jd = c.m.tdu._gc.jd_from_gregorian_date((g, month, 20, 12))
    return c.m.tdu._find_moment_of_equinoxes_or_solstices(jd, lam=lam, **k)


def years(env, tier, rng):
    return [{'block': i} for i in range((1161 + 260) // STEP + 1)]


@unit('C24', 'naw_ruz', sym=False, cases=years, samples=0,
      complete=('quick', 'thorough'),
      about='every year: the sunset that begins it is the last one before '
            'the equinox, give or take ten seconds')
def naw_ruz(c):
    b = c.int('block', 0, (1161 + 260) // STEP)
    bc, (lat, lon) = c.m.tdu, c.m.BC._BAHAI_LOCATION[:2]
    for y in range(-260 + b * STEP, min(1161, -260 + b * STEP + STEP - 1) + 1):
        e = moment(c, y + 1843, 0)
        a = bc.jd_from_badi_date((y, 1, 1))
        s = bc._meeus_from_exact(a)
        c.require('begins-before', s <= e + 10 * SEC, (y, s, e))
        n = bc._sun_setting(s + 1, lat, lon)
        c.require('not-a-day-late', e < n + 10 * SEC, (y, n, e))
        c.require('is-a-sunset', abs(bc._sun_setting(s, lat, lon) - s) <
                  1e-6, (y, s))
        # the year table and what is made of it
        c.require('table', c.m.tdu._YEAR_START[y] + 1721423 == int(a + .5),
                  (y, a))
        c.require('date', bc.badi_date_from_jd(a + .3, short=True)[:3] ==
                  (y, 1, 1), y)
        c.require('eve', bc.badi_date_from_jd(a - .3, short=True)[:3] ==
                  (y - 1, 19, 19), y)


def all_years(env, tier, rng):
    return [{'block': i, 'season': s} for i in range(3003 // STEP + 1)
            for s in range(4)]


@unit('C24', 'seasons', sym=False, cases=all_years, samples=0,
      complete=('quick', 'thorough'),
      about='equinoxes and solstices of every year from 2 to 3004')
def seasons(c):
    b, i = c.int('block', 0, 3003 // STEP), c.int('season', 0, 3)
    bc, prev = c.m.tdu, None
    for g in range(max(2, b * STEP), min(3004, b * STEP + STEP) + 1):
        e = moment(c, g, i)
        if prev is not None:
            c.require('tropical-year', abs(e - prev - 365.2422) <= 30 / 1440,
                      (g, prev, e))
        prev = e
        tc = bc._julian_centuries(e + bc._delta_t(e) * SEC)
        ra = bc._sun_apparent_right_ascension(tc)
        off = (ra - SEASONS[i][0] + 180) % 360 - 180
        c.require('right-ascension', abs(off) <= .02, (g, off))
        z = moment(c, g, i, zone=3.5)
        c.require('zone', abs(z - e - 3.5 / 24) < 1e-9, (g, z, e))
        # any moment of the year gives the same
        for m, d in ((1, 1.5), (12, 31.5)):
            jd = c.m.tdu._gc.jd_from_gregorian_date((g, m, d))
            x = bc._find_moment_of_equinoxes_or_solstices(
                jd, lam=SEASONS[i][0])
            c.require('year', x == e, (g, m, d))
