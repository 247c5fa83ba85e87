#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md with @PROPS@ replaced by a
section per property (the text here, and the list of its units), and @SEEDED@
by the table of planted changes.  Run with tools/run.sh."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
from pyvc import core                                         # noqa: E402

TEXT = {
 'C01': '''The specification of a year is its row of the Naw-Ruz table and the
one after it.  The table is finite, so its axioms and the years themselves are
enumerated completely; what is computed from a date (successor, day of year) is
proved for all dates over the axioms.  The tests sample a few years.''',
 'C02': '''The specification of a day number is `first day of the year + day of
year` over the table.  `_ymd2ord` and `_ord2ymd` are proved against it, and the
inverse follows with the lemma that the specification is injective.  `_ord2ymd`
goes through the Julian day and the sunset; for the sunset it uses the contract
of C05.''',
 'C03': '''Oracle: the integer day number of the proleptic Gregorian calendar
(compared with `datetime.date` in a unit of its own).  Floats are reals with an
error; the search loop over years is cut with an invariant (`year_loop`).''',
 'C04': '''Both conversions are short chains of comparisons; every path is
proved for every real input.  The calendars unit ties both scales to the same
calendar date.''',
 'C05': '''The sunset of a local day is an uninterpreted function of the day.
What is known about it (later than 14:20 and before 18:50 UT, successive ones
within five minutes of a day) is enumerated for *every* local day of the
calendar, one million of them, on the real `_sun_setting`; that it is a function
of the day is proved from the code with any result of `_rising_setting`.  The
conversions are proved over that contract, for every date and time.''',
 'C06': '''All long forms are an affine image of the years; one direction is
enumerated for every date, the other proved.''',
 'C07': '''Accept-exactly: the constructor is run on unconstrained integers and
the outcome (object or exception) must be the one that the specification of the
ranges gives; reported fields must be the given ones.''',
 'C08': '''The order is specified by day number and time in microseconds;
`_cmp_key` and the operators are proved for all pairs, in all mixes of form.
Hashes are compared as terms: a hash is an uninterpreted function of the hashed
tuple, so equality has to follow from equal contents.''',
 'C09': '''Over the contracts of `_ymd2ord`, `_ord2ymd` (C02) and the long form
(C06); timedelta is a symbolic class with integer days, seconds, microseconds.''',
 'C10': '''As C09 with all carries; the total of microseconds is compared.''',
 'C11': '''The requested field is a symbolic float of the range; the total of
the resulting fields is compared with it as a real.''',
 'C12': '''Pickle and copy are run for real on objects with symbolic fields:
the state made by `__reduce_ex__` is given back to the constructor as the
protocol says.  Bytes with symbolic elements.''',
 'C13': '''Texts are symbolic strings of digits: formatting gives a list of
digit terms, parsing reads them.  So the round trip is one proof for all
dates.''',
 'C14': '''Specification: ISO weeks over the seven-day cycle of C15.  The code
under proof uses day numbers by contract.''',
 'C15': '''Specification: (day number + 1) mod 7.''',
 'C16': '''Floats as reals with errors; floor and rounding introduce integers.
The bound (nanosecond, millisecond) is the postcondition.''',
 'C17': '''As C16, over reals for every angle below 1e15 degrees.''',
 'C18': '''`struct_time` of this library is executed for real over the day
number contract.''',
 'C19': '''Offsets are symbolic integers of microseconds; the texts are digit
lists, and equal texts imply equal offsets because reading them back gives the
offset.''',
 'C20': '''Instant = day number, time and offset in microseconds.''',
 'C21': '''As C20; local fields are those of the shifted total.''',
 'C22': '''Every subset of fields is a symbolic choice.''',
 'C23': '''Fields are compared one by one.''',
 'C24': '''Inputs are the years: a finite domain, and every year is evaluated
on the real code.  No deductive step is needed or used (the status is
enumerated).''',
 'C25': '''strftime of every directive is proved digit by digit over the
contracts of the day number, and the fields that strptime makes of the groups
of its regular expression are proved for all groups.  That the regular
expression of a directive finds those groups is outside of the theory of the
prover: it is enumerated per directive, for every text the directive can
produce, and sampled for formats of several directives.''',
 'C26': '''Two parts.  The only state that a calendar method writes is the
nutation cache: a frame condition, checked on every path of the public methods
with an object whose attribute writes are recorded.  The cache obeys an
inductive invariant (what it holds for a moment is the value that an empty
cache gives), proved for every cache content that satisfies it.''',
 'C27': '''`set_local_coordinates` is executed for all pairs of settings with an
uninterpreted local zone offset.''',
 'C28': '''Composition of C05 (sunset of the day), `fields` (from the time
since that sunset to the fields) and C10.  The round trip through floats of the
real library is sampled as a cross-check.''',
 'C29': '''The astronomical series are trigonometric polynomials, outside of the
theory of the prover.  What surrounds them is proved against *any* such
functions: the day they belong to, the iteration, hour angle, interpolation.
The altitude and the position themselves are bounded checks against the low
precision formulas of Meeus, written independently in the unit.''',
 'C30': '''Oracle: integer day number of C03 and the second of the day; the loop
over years is cut with an invariant.''',
}


def main():
    base = json.load(open(f'{ROOT}/baseline.json'))
    props = [json.loads(x) for x in open(f'{ROOT}/properties.jsonl')]
    out = ['## The properties', '',
           'Status of a unit: *proved* (every obligation discharged for all '
           'inputs), *enumerated* (complete finite domain evaluated on the '
           'real code), *bounded* (sampled, never counted as proved).  '
           '"over" names the contracts (`pyvc/contracts.py`) that stand for '
           'callees; each names the unit that proves it.', '']
    for p in props:
        i = p['id']
        importlib.import_module('pyvc.units.' + i.lower())
        out += [f'### {i} {p["title"]}', '', TEXT[i], '']
        for u in core.UNITS[i]:
            st = base[i].get(u.name, 'bounded')
            s = f'* `{u.name}` ({st}): {u.about or u.bounded}'
            if u.about and u.bounded:
                s += f' — bounded part: {u.bounded.split(": ", 1)[-1]}'
            if u.stubs:
                s += '; over ' + ', '.join(
                    f'`{getattr(x, "__name__", "contract")}`'
                    for x in u.stubs)
            out.append(s)
        out.append('')
    rows = ['| change | property | what it breaks | needs | caught by |',
            '|---|---|---|---|---|']
    for d in sorted(glob.glob(f'{ROOT}/seeded/*/meta.json')):
        m = json.load(open(d))
        n = os.path.basename(os.path.dirname(d))
        rows.append(f'| {n} | {m["property"]} | {m["what_it_breaks"]} | '
                    f'{m["needs"]} | {HITS.get(n, "not run yet")} |')
    head = open(f'{HERE}/design_head.md').read()
    text = head.replace('@PROPS@', '\n'.join(out))
    text = text.replace('@SEEDED@', '\n'.join(rows))
    open(f'{ROOT}/DESIGN.md', 'w').write(text)


HITS = json.load(open(f'{HERE}/hits.json'))
main()
