#!/usr/bin/env python3
"""Writes /verif/known_findings.json."""
import json, os, subprocess
KNOWN = [
    {'id': 'KF-ORD',
     # per property: a unit and input that shows it (run on every check)
     'witness': {
         'C01': ['successor', {'long': 0, 'y': -1788, 'm': 5, 'd': 3}],
         'C02': ['ymd2ord', {'y': -1796, 'm': 5, 'd': 3}],
         'C09': ['add', {'long': 0, 'y': -1792, 'm': 5, 'd': 3, 't': 0}],
         'C10': ['add', {'aware': 0, 'long': 0, 'y': -1788, 'm': 5, 'd': 3,
                         'hh': 0, 'mm': 0, 'ss': 0, 'us': 0, 't': 0}],
         'C21': ['convert', {
             'aoff': 0, 'fold': 0, 'long': 0, 'y': -1788, 'm': 2, 'd': 8,
             'hh': 0, 'mm': 0, 'ss': 0, 'us': 0, 'to': 0, 'toff': 1}],
         'C20': ['difference', {
             'aoff': 0, 'afold': 0, 'along': 0, 'ay': -1788, 'am': 2,
             'ad': 8, 'ahh': 0, 'amm': 0, 'ass': 0, 'aus': 0, 'boff': 1,
             'bfold': 0, 'blong': 0, 'by': 1, 'bm': 2, 'bd': 1, 'bhh': 0,
             'bmm': 0, 'bss': 0, 'bus': 0}],
         'C14': ['isocalendar', {'long': 0, 'y': -1788, 'm': 18, 'd': 9}],
         'C15': ['number', {'long': 0, 'y': -1788, 'm': 17, 'd': 15}],
         'C18': ['date', {'long': 0, 'y': -1792, 'm': 8, 'd': 6}],
         'C25': ['date', {'fmt': 8, 'long': 0, 'y': -1796, 'm': 7, 'd': 13}],
     },
     'where': 'badidatetime/_timedateutils.py _ymd2ord, the variable fudge',
     'inputs': 'every date of the years -1796, -1792 and -1788',
     'what': 'toordinal() of every date in the years -1796, -1792 and -1788 '
             'is one too high (the repository tests pin these numbers)'},
    {'id': 'KF-ISO',
     'witness': {
         'C14': ['roundtrip', {'long': 0, 'y': -1842, 'm': 19, 'd': 11}],
         'C25': ['parse', {'fmt': 8, 'y': 603, 'm': 19, 'd': 18, 'hh': 0,
                           'mm': 0, 'ss': 0, 'us': 0}]},
     'where': 'badidatetime/_timedateutils.py _isoweek_to_badi, day_one',
     'inputs': 'fromisocalendar(year, 52 or 53, ...) of years whose first day '
               'has the ISO weekday 3 or 4',
     'what': 'in years that begin on ISO weekday 3 or 4, fromisocalendar '
             'reads week 52 seven days late and rejects week 53 (the '
             'repository tests pin both)'},
    {'id': 'KF-DELTAT',
     'witness': {
         'C29': ['altitude', {'jd': 1725342.0, 'lat': 35.69435,
                              'lon': 51.288701, 'off': 0}]},
     'where': 'badidatetime/base_calendar.py _rise_set_correction and '
              '_transit_correction, n = m + dt / self._SECONDS_PER_DAY',
     'inputs': 'sunrise and sunset before the year 300, where TD - UT '
               'exceeds two hours',
     'what': 'TD - UT, already in days, is divided by 86400 once more, so '
             'the interpolation of the sun ignores it: sunrise and sunset '
             'in the first centuries are up to half a minute off, and the '
             'altitude up to 0.125 degree (the repository tests pin the '
             'values)'},
    {'id': 'KF-PCTZ',
     'witness': {
         'C25': ['offset', {'y': 181, 'm': 1, 'd': 1, 'oh': 3, 'om': 30}]},
     'where': 'badidatetime/_timedateutils.py z, m0 = m * 100',
     'inputs': '%z and %:z of an offset that is not a whole number of hours, '
               'or is zero',
     'what': 'strftime %z and %:z give the minutes in hundredths of an hour '
             '(+0350 for 3 h 30 min) and nothing for a zero offset (the '
             'repository tests pin this)'},
    {'id': 'KF-CARRY',
     'witness': {'C28': ['fields', {
         'y': 181, 'm': 2, 'd': 3, 'part': 1, 's': .1, 'f': 1 - 1e-9,
         'long': 0}]},
     'where': 'badidatetime/badi_calendar.py short_date_from_long_date, the '
              'carry of hour 24',
     'inputs': 'moments less than 2.1 milliseconds before 24 hours after the '
               'sunset',
     'what': 'the time of such a moment rounds to hour 24; the long form '
             'keeps 24:00:00 and the short form carries it to 23:00:00 of '
             'the next day or of a day of the next month (the repository '
             'tests pin the carry)'},
    {'id': 'KF-LONGDAY',
     'witness': {'C28': ['sunset', {
         'era': 5, 'y': 45, 'm': 5, 'd': 4, 'x': 0.15821815}]},
     'where': 'badidatetime/badi_calendar.py _utc_to_badi_time, the branch '
              'delta >= 1',
     'inputs': 'moments less than 102 seconds before a sunset that comes '
               'more than 24 hours after the sunset before, and more than 24 '
               'hours after that one',
     'what': 'in the spring half of the year a Badi day is up to 51 (and '
             'beside a dropped 29 February 102) seconds longer than 24 '
             'hours; these last seconds are given to the next date, from '
             '00:00:00 on, which then begins again at the sunset: the '
             'timestamp does not come back, and later timestamps give '
             'earlier times.  Hour 24 has no short form (see KF-CARRY), so '
             'there is no small repair'},
]
FIXED = [
    ('C25', 'dcd09eb', 'strftime dropped the literal character after - or : and formatted what follows %%'),
    ('C25', '13012b4', 'strftime rejected the documented directive %w'),
    ('C25', '04df70b', 'strftime %C of a negative year was one century low'),
    ('C25', '073abfd', 'strftime %G gave the calendar year, not the ISO year'),
    ('C25', '62069df', 'strftime %e and %l put a space before two digits'),
    ('C25', 'eabf40d', 'strptime took the weekday of %u one day late'),
    ('C25', '00c8e6d', 'strftime %:K put two signs before a negative Kull-i-Shay'),
    ('C01', '4906c1a', 'year 1161 counted as a leap year: no coefficient for year 1162'),
    ('C02', 'f58613f', 'the last days of year 1161 had no number'),
    ('C08', '116db94', 'dates of month 0 and long form dates ordered wrongly'),
    ('C23', '69f4ef3', 'a long form datetime lost its Kull-i-Shay and Vahid'),
    ('C28', 'e41bfb4', 'timestamp() of a naive datetime counted the microseconds twice'),
    ('C12', '03d6ae6', 'dates of month 0 and times with hour 24 did not survive pickling'),
    ('C12', '03d0934', 'TZWithCoords.fromzoneinfo put the zoneinfo on the class'),
    ('C12', 'bc5e512', 'a pickled TZWithCoords lost zone, name and zoneinfo'),
    ('C13', 'aa628fd', 'a negative ISO time zone offset kept positive minutes'),
    ('C13', '6751839', 'YYYYMMDD parsed one digit of the day'),
    ('C13', '26a6078', 'ISO text of the years -999 to -1 was not parsed'),
    ('C11', '42fde81', 'microseconds of a fractional second were truncated'),
    ('C26', '78f8e73', 'nutation at J2000 failed on a new calendar object'),
    ('C11', '008396d', 'a fractional hour or minute gave minute or second 60'),
    ('C08', 'c8e8f14', 'time <= time with mixed naive and aware did not raise'),
    ('C05', 'b67b5a6', 'three exclusive options were accepted together'),
    ('C27', '923d6fe', 'whole number coordinates were ignored'),
    ('C05', '825f2fd', 'dates beside 29 February of a century year did not convert to and from a JD'),
    ('C22', 'cceb086', 'replace(kull_i_shay=0) on a short form was ignored'),
    ('C07', '6a68306', 'years -1843 and 1162 were accepted'),
    ('C17', '3ba5b50', 'the hemisphere of a latitude was E or W unless abbreviated to lat'),
    ('C30', '66fb215', 'posix_timestamp failed on 31 December of every year'),
    ('C05', '2a724d5', 'times of the day before a junction of the two JD scales were up to a minute off'),
    ('C30', '8ae37c5', 'posix_timestamp gave a second of 60.0'),
]
for k in KNOWN:
    k['properties'] = sorted(k['witness'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
    json.dump({'known': KNOWN, 'fixed': [f'fixed: property={p} {h} {w}' for p, h, w in FIXED]},
              open(out, 'w'), indent=1, ensure_ascii=False)
