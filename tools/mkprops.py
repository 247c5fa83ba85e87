#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the statements live)."""
import json, os
BC, BASE, GC = ('badidatetime/badi_calendar.py', 'badidatetime/base_calendar.py',
                'badidatetime/gregorian_calendar.py')
TD, DT, ST, SP, IN, CO = (
    'badidatetime/_timedateutils.py', 'badidatetime/datetime.py',
    'badidatetime/_structures.py', 'badidatetime/_strptime.py',
    'badidatetime/__init__.py', 'badidatetime/_coefficients.py')
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': m, 'where': w}
                                        for m, w in mech]}})


I = ['inputs']
p('C01', "Year and month structure of the Badí' calendar",
  "Every supported year (-1842 to 1161) consists of eighteen months of 19 days, then 4 intercalary days (month 0), 5 in a leap year, then month 19 of 19 days, and its days are numbered 1 to 365 or 366 in that order. A year is a leap year exactly if the next year begins 366 days after it began, otherwise 365 days later. Leap years follow one another after 4 or 5 years.",
  I, 'every year -1842..1161 and every day of it',
  'The tests look at a few dozen years; a wrong Naw-Ruz in any one of 3004 years shifts a whole year.',
  [BC, TD, CO], [('year start table', BC + ' _build_badi_year_start, _is_leap_year'), ('day of year', TD + ' _days_before_month'), ('per-year corrections', CO)])
p('C02', 'Day numbers and dates are inverse and consecutive',
  "Converting any supported date to its day number and back gives the same date, in short and in long form, and the day number of the next date is one more; the first supported date has number 78 and the last 1097266. Every number from 78 to 1097266 converts to a date whose number it is (the ten days of the Gregorian reform of 1582, numbers 577725 to 577734, are documented as not convertible from their number), and every other number is rejected.",
  I, 'all 1,097,189 dates and all integers as day numbers',
  'Tests convert a few dozen hand-picked dates; off-by-one errors hide in single years.',
  [TD, BC, DT], [('date to number', TD + ' _ymd2ord, _days_before_year, _days_before_month'), ('number to date', TD + ' _ord2ymd; ' + BC + ' badi_date_from_jd, _badi_year_from_rd')])
p('C03', 'Gregorian dates and Julian days round-trip',
  "For every valid Gregorian date of the years 1 to 3000, converting to a Julian day with the astronomical rule and back gives the same year, month, day and fraction of the day, consecutive dates are exactly one day apart, and the count keeps a constant distance to the standard proleptic Gregorian day number. The historical rule round-trips in the same way for every date from -4712 on that it accepts, makes 1582-10-15 the day after 1582-10-04, and rejects the ten days between.",
  I, 'every Gregorian date, with any fraction of a day',
  'Tests sample a few dates; leap-year and month-boundary arithmetic must hold for all.',
  [GC, BASE], [('astronomical rule', GC + ' jd_from_gregorian_date, gregorian_date_from_jd; ' + BASE + ' _days_in_years'), ('historical rule', GC)])
p('C04', 'Historical and astronomical Julian days convert one to one',
  "Converting an astronomical Julian day to the historical (Meeus) scale and back gives the same value, and so does the other direction, for every value either conversion accepts. Both conversions keep the order and shift by a whole number of days from 0 to 12; values of the ten reform days, and of the historical leap days that the proleptic calendar does not have, are rejected with ValueError.",
  I, 'every real Julian day',
  'Tests check the table edges one by one, not that the two tables agree everywhere.',
  [BASE], [('conversion tables', BASE + ' _meeus_from_exact, _exact_from_meeus')])
p('C05', "Badí' dates round-trip through Julian days, timestamps and sunset",
  "Every supported date, and every time of day up to 23:55, converted to a Julian day (or POSIX timestamp) at the Tehran reference point and back gives the same date, and the same time of day within 10 milliseconds. Each date begins at the Tehran sunset of its civil day: its Julian day at time 0 lies within five minutes of one day after that of the previous date. Only the days of the Gregorian reform of 1582 (-261-11-09 to -261-11-19) are documented as not convertible.",
  I, 'all 1,097,189 dates and every time of day',
  'Tests convert some dates; the year table, the sunset and the two JD scales must agree on all of them.',
  [BC, BASE, CO], [('to JD', BC + ' jd_from_badi_date'), ('from JD', BC + ' badi_date_from_jd, _utc_to_badi_time, _badi_year_from_rd')])
p('C06', 'Short and long form of a date correspond one to one',
  "Each supported year has exactly one long form (Kull-i-Shay, Vahid, year) with Vahid and year from 1 to 19, namely the one with year = (Kull-i-Shay - 1) * 361 + (Vahid - 1) * 19 + year-in-Vahid. Converting a date from short to long form and back, or from long to short and back, changes nothing, including month, day and time of day.",
  I, 'every year -1842..1161, every month, day, time of day',
  'The conversion uses floating point division; tests sample some years only.',
  [BC], [('conversions', BC + ' long_date_from_short_date, short_date_from_long_date')])
p('C07', 'Constructors accept exactly the valid fields and report them back',
  "A date, datetime or time is created exactly if its fields are in range: year -1842 to 1161 (or the matching long form), month 0 to 19, day 1 to the length of the month in that year, hour 0 to 24, minute 0 to 59, second 0 to 60, microsecond 0 to 999999, fold 0 or 1, and a tzinfo or None; anything else raises an exception. The created object reports the very fields it was given.",
  I, 'all combinations of integer fields, short and long form',
  'Tests try a list of invalid values, not every combination of month, leap year and bounds.',
  [BC, TD, DT], [('checks', BC + ' _check_valid_badi_date, _check_valid_badi_time; ' + TD + ' _check_date_fields, _check_time_fields'), ('constructors', DT)])
p('C08', 'Dates and naive datetimes order chronologically, hashes follow equality',
  "For any two dates, or two naive datetimes, in any mix of short and long form, exactly one of <, == and > holds, and it is the one given by their position in time (intercalary days come between month 18 and month 19); <=, >= and != agree with it. Equal objects have equal hashes. A date never equals a datetime, and ordering one against the other raises TypeError.",
  I, 'all pairs of dates and of naive datetimes',
  'Tests compare a few pairs; ordering is a relation over all pairs.',
  [DT], [('comparison', DT + ' date._cmp, date._cmp_key, datetime._cmp, __hash__')])
p('C09', 'Adding and subtracting days to dates is exact',
  "Adding a timedelta to a supported date moves it by exactly the timedelta's number of days, keeps its short or long form, and raises OverflowError exactly if the result would lie outside the supported range. Subtracting inverts adding, and the difference of two dates is the number of days between them.",
  I, 'all dates, all timedeltas, short and long form (results on the reform days excluded as in the day numbers)',
  'Tests add a few constants.',
  [DT, TD], [('arithmetic', DT + ' date.__add__, __sub__')])
p('C10', 'Datetime arithmetic is exact to the microsecond',
  "Adding a timedelta to a datetime moves it by exactly that amount, to the microsecond, with carries through seconds, minutes, hours and days; it keeps the form and the tzinfo and raises OverflowError if the result is out of range. For datetimes a and b of the same tzinfo, (a + d) - a == d, (a + d) - d == a, and a - b counts exactly the microseconds between them.",
  I, 'all datetimes, all timedeltas',
  'Tests check a few sums; carries and signs interact.',
  [DT], [('arithmetic', DT + ' datetime.__add__, __sub__')])
p('C11', 'Fractional hours, minutes and seconds normalise into range',
  "A datetime built from a fractional hour, minute or second has whole hour, minute, second and microsecond fields within their ranges, whose total differs from the requested time by at most 5 milliseconds (2 microseconds for fractional seconds). A fractional field followed by a nonzero smaller field is rejected.",
  I, 'every fractional hour, minute or second',
  'Rounding must not reach 60 or 1000000 for any float; tests use a handful.',
  [DT, BASE], [('normalisation', DT + ' _create_time; ' + BASE + ' _PARTIAL_*')])
p('C12', 'Pickling and copying preserve date, time and timezone objects',
  "Pickling with any protocol, copy and deepcopy of a date, time, datetime, or timezone give an object of the same type that is equal to the original and has the same fields, form, timezone offset and name; fold survives with protocol 4 and later, and copying.",
  I, 'all objects with whole fields, protocols 2 to 5',
  'Tests pickle a few instances; the byte encoding must be inverted for every field value.',
  [DT], [('state', DT + ' _getstate, __setstate, _is_pickle_data, __reduce_ex__')])
p('C13', 'ISO formatting and parsing are inverse',
  "For every supported date, parsing its ISO text gives the date back; likewise the compact (YYYYMMDD) and ordinal-day (YYYY-DDD) texts of a date denote that date, in years 0 to 1161. For every datetime with whole fields and no timezone, or one with an offset of whole minutes, parsing its ISO text gives an equal datetime with the same fields and offset.",
  I, 'all dates and datetimes, all whole-minute offsets',
  'Tests parse some strings; sign, width, and digits must agree for all values.',
  [DT, TD], [('format', DT + ' isoformat, _format_time, _format_offset'), ('parse', TD + ' _parse_isoformat_*')])
p('C14', 'Week dates identify days uniquely',
  "For every supported date the week date (year, week, weekday) has a week from 1 to 53 and a weekday from 1 to 7 that equals the date's weekday number, weekdays of one week are consecutive days, and the week belongs to the year that contains at least four of its days. Converting the week date back gives the same date.",
  I, 'all 1,097,189 dates',
  'Tests convert some; year boundaries behave differently for each starting weekday.',
  [TD, DT], [('week dates', TD + ' _year_week_day, _isoweek1jalal, _isoweek_to_badi; ' + DT + ' isocalendar')])
p('C15', 'Weekdays follow the seven-day cycle without a break',
  "The weekday of a date is a number from 0 to 6, the next day has the next number cyclically, across months, intercalary days and years, and the ISO weekday is that number plus one. Short and long form of a date have the same weekday, and name, number and struct fields agree.",
  I, 'all dates',
  'Tests check single dates.',
  [TD, DT, ST], [('weekday', TD + ' _day_of_week; ' + DT + ' weekday, isoweekday')])
p('C16', 'Times of day and fractions of a day convert consistently',
  "Turning hours, minutes and seconds (with microseconds) into a fraction of a day is exact within a nanosecond, and turning a fraction of a day into hours, minutes and seconds gives values in range (hour 0 to 24, minute and second below or at 60 only through rounding) whose total is within 4 milliseconds of the fraction. Converting days, hours, minutes and seconds to seconds and a number of seconds below two days back gives the same time, with the microseconds in 0 to 999999.",
  I, 'every float fraction and every time of day',
  'Rounded floating point chains must hold for every input.',
  [BASE], [('conversions', BASE + ' _hms_from_decimal_day, _decimal_day_from_hms, _seconds_from_dhms, _dhms_from_seconds, _sec_microsec_from_seconds')])
p('C17', 'Angles reduce to one turn and unit conversions invert',
  "Reducing any finite angle gives a value from 0 up to 360 degrees that differs from the angle by whole turns. Converting decimal degrees to degrees, minutes and seconds with a direction and back gives the same angle, with minutes and seconds in 0 to 60 (to the rounding of floats) and the hemisphere letter matching the sign; the same holds for hours, minutes and seconds of right ascension.",
  I, 'every finite angle',
  'Tests check examples; the range claim is over all floats.',
  [BASE], [('reduction', BASE + ' _coterminal_angle, _local_hour_angle'), ('units', BASE + ' _dms_from_decimal, _decimal_from_dms, _hms_from_degrees, _degrees_from_hms')])
p('C18', 'Time tuples agree with the object they come from',
  "The time tuple of a date or datetime has the object's own year, month, day, hour, minute and second (short or long form like the object), the weekday of its date, and the day of the year from 1 to 366 counted from the first day of the year. Its zone name and offset are those of the object's timezone (no offset is reported for a zero offset).",
  I, 'all dates and datetimes',
  'Tests check a few tuples.',
  [TD, ST, DT], [('struct', TD + ' _build_struct_time; ' + ST + ' struct_time')])
p('C19', 'Fixed-offset timezones keep, bound and print their offset',
  "A fixed-offset timezone is created exactly for offsets strictly between -24 and 24 hours and reports exactly that offset for every datetime; two are equal exactly if their offsets are, and then hash equally. Its name, and the offset text in ISO output, is the sign, hours, minutes and, if needed, seconds and microseconds of the offset, so that different offsets have different texts.",
  I, 'all timedeltas as offset',
  'Tests check some offsets; sign handling and bounds are over all microseconds.',
  [DT], [('timezone', DT + ' timezone, _format_offset, _name_from_offset, _check_offset')])
p('C20', 'Aware datetimes compare, subtract and hash by instant',
  "For two aware datetimes of any fixed offsets, their difference is the exact number of microseconds between their instants (local time minus offset), and <, ==, > agree with the sign of that difference. Equal ones have equal hashes. A naive and an aware datetime are unequal, and ordering or subtracting them raises TypeError; timestamps of aware datetimes differ by exactly their difference.",
  I, 'all pairs of aware datetimes and offsets',
  'Tests compare few pairs with few offsets.',
  [DT], [('comparison', DT + ' datetime._cmp, __sub__, __hash__, timestamp')])
p('C21', 'Converting between timezones preserves the instant',
  "Converting an aware datetime to another fixed-offset timezone gives a datetime carrying that timezone which is equal to the original, and whose local time is the original's shifted by the difference of the offsets. Converting back, or to the same timezone, gives the original fields; the result keeps short or long form.",
  I, 'all aware datetimes and pairs of offsets',
  'Tests convert some.',
  [DT], [('conversion', DT + ' astimezone, timezone.fromutc')])
p('C22', 'Replacing fields changes exactly the named fields',
  "Replacing any subset of the fields of a date, time or datetime gives an object of the same type that has the named fields set to the given values and all other fields, including form, tzinfo and fold, unchanged, and leaves the original as it was. Replacing nothing gives an equal object, and values that make the result invalid are rejected.",
  I, 'all objects, all subsets of fields, all values (zero included)',
  'Subsets times values; tests try a few.',
  [DT], [('replace', DT + ' replace, _replace_short, _replace_long')])
p('C23', 'Combining and splitting date and time are inverse',
  "Combining a date and a time gives a datetime with the date's fields and form and the time's fields, fold and tzinfo (or the tzinfo given, None included). The date and time parts of any datetime are its own fields, and combining them again gives the same datetime; the time part without timezone is naive, the other one keeps the timezone.",
  I, 'all dates, times and datetimes, short and long form',
  'Tests combine some.',
  [DT], [('combine', DT + ' combine, date, time, timetz')])
p('C24', 'The year starts with the sunset before the March equinox',
  "For every year from -260 to 1161, the first day of the year is the day that begins with the last Tehran sunset before the moment of the March equinox, as the library itself computes the two (moments within ten seconds of each other count as either order). Consecutive equinoxes and solstices it computes are a tropical year apart, within half an hour, and at each the sun's computed right ascension is the multiple of 90 degrees within 0.02 degrees.",
  I, 'every year from -260 to 1161; equinoxes and solstices of the years 2 to 3004',
  'The tests check some Naw-Ruz dates; a wrong correction can hit any year.',
  [BC, CO, BASE], [('Naw-Ruz', BC + ' jd_from_badi_date, _build_badi_year_start; ' + CO), ('equinox', BASE + ' _find_moment_of_equinoxes_or_solstices')])
p('C25', 'Formatted dates carry the fields and parse back',
  "For every date, time and datetime, formatting each numeric directive (%Y %m %d %e %H %k %M %S %f %T %j %u %w, the century %C, the year without century %y of years from 0 on, the Kull-i-Shay %:K, the Vahid %:V, and the ISO year %G and week %V) gives the digits of the field with the documented padding (none with %-), the name directives give the names of the weekday and month, %z the UTC offset, and literal text and %% are copied unchanged. Parsing the text of such a format that names the day (by month and day, day of the year, or ISO year, week and weekday) with the same format gives the same date and time fields. The week of the year %U, the 12-hour clock, and the formats of the locale are not covered.",
  I, 'all datetimes, all supported directives',
  'Tests format a few datetimes.',
  [TD, SP], [('format', TD + ' strftime and the directive methods, _wrap_strftime'), ('parse', SP)])
p('C26', 'Results do not depend on what was computed before',
  "Conversions, sunrise, sunset, equinox and nutation computations, comparison, hashing, formatting and parsing give the same result on an object that has done any sequence of other computations as on a fresh one, and never change the object's visible fields.",
  ['histories'], 'all sequences of calls on one calendar object or date object',
  'Each test uses a fresh sequence; stale caches show only after particular histories.',
  [BASE, DT, SP], [('nutation cache', BASE + ' _nutation_longitude, _nutation_obliquity'), ('hash cache', DT + ' __hash__'), ('format cache', SP + ' _TimeRE_cache, _regex_cache')])
p('C27', 'Local coordinates configure local time consistently',
  "After setting a latitude and longitude (any real numbers, zero included), the local coordinates are exactly these, with the local zone's offset in hours, and the local timezone has that offset; with neither given they are the Tehran reference coordinates and offset. The last setting wins, whatever was set before.",
  ['configurations', 'histories'], 'all coordinates and sequences of settings (no network lookups)',
  'Tests set two or three coordinates.',
  [IN], [('configuration', IN + ' set_local_coordinates, _get_local_coordinates, _locale_config')])
p('C28', 'Naive timestamps round-trip through local datetimes',
  "In the default local coordinates, for every timestamp from April of the year 1 to the year 3000 outside the two weeks around the reform days, the naive datetime created from it has whole fields in range (hour 0 to 23), and its timestamp is the original within 10 milliseconds, in short and long form; a timestamp at least 20 milliseconds later never gives an earlier datetime. The date created from a timestamp is the date part of that datetime.",
  I, 'all timestamps between the supported years',
  'Tests convert a few timestamps; sunset, day boundary and rounding interact.',
  [DT, BC], [('timestamps', DT + ' _fromtimestamp, _mktime, date.fromtimestamp; ' + BC + ' badi_date_from_timestamp')])
p('C29', 'Sunrise and sunset belong to the requested local day',
  "For any Julian day of the supported years and any coordinates up to 60 degrees latitude, the computed sunrise and sunset lie within the local (mean solar) day of the given moment, sunrise before sunset, and depend only on that day. At both moments the sun's altitude, from the library's own position of the sun, is the horizon altitude of -0.8333 degree within a tenth of a degree (within a thousandth when the moment is taken as Universal Time throughout); that position agrees with the standard low-precision formulas within a hundredth of a degree.",
  I, 'every Julian day, latitude up to 60 degrees, every longitude',
  'Tests compare a few sunsets with an almanac.',
  [BASE], [('sun', BASE + ' _sun_rising, _sun_setting, _rising_setting, _rise_set_correction')])
p('C30', 'POSIX timestamps give the standard UTC Gregorian date and time',
  "For every timestamp from 0 to the year 3000, the Gregorian date and time of the timestamp is the standard proleptic Gregorian UTC date and time, shifted by the given zone in hours (not to before 1970), with seconds correct to a microsecond (to the precision of the timestamp as a float) and all fields in range.",
  I, 'all timestamps from 1970 to 3000 and quarter-hour zones',
  'Tests convert some timestamps; year and month boundaries must hold for all days.',
  [GC], [('posix', GC + ' posix_timestamp')])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x, ensure_ascii=False) + '\n')
