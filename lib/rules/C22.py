import calendar
import datetime
import os
import re

import facts as FA
import pyvn as P
import terms as T
from facts import AnalysisError
from framework import rel
from pyrule import PKG, Pair

META = dict(explanation='leap_seconds.py is value numbered (syntax tree of '
            'Python, NumPy uninterpreted) and compared on every path with '
            'the reference of spec/py_leap_seconds.py: reading of the file, '
            'conversion of its epochs, and the look-up of the last entry '
            'that is not after the date. The lines of the bundled table are '
            'compared with the leap seconds published by the IERS. The '
            'conversions of dates in C++ are value numbered over symbolic '
            'datetime and datetime64 objects (the layout of CPython, stubs '
            'of pybind11): fields, range, scale of each resolution; the '
            'number of days is constant folded for the months of the years '
            'that can be converted and compared with an independent count.',
            technique='static analysis: value numbering of Python and C++ '
            'against references, constant folding per month, comparison of '
            'the table',
            assumes='numpy.searchsorted, the regular expressions and '
            'datetime do what they document. Real arithmetic: rounding is '
            'not modelled. Bound: files of up to 2 lines (3: thorough); the '
            'lines are treated one by one.')

#: (year, month of the first day) and TAI - UTC, IERS bulletin C
LEAPS = [(1972, 1), (1972, 7), (1973, 1), (1974, 1), (1975, 1), (1976, 1),
         (1977, 1), (1978, 1), (1979, 1), (1980, 1), (1981, 7), (1982, 7),
         (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7),
         (1993, 7), (1994, 7), (1996, 1), (1997, 7), (1999, 1), (2006, 1),
         (2009, 1), (2012, 7), (2015, 7), (2017, 1)]
ENTRY = re.compile(r'^(\d+)\s+(\d+)\s+#\s1\s(\w{3})\s(\d{4})$')
DAYS = 'fes::python::datemanip::days_from_civil'
SCALE = 'fes::python::npdatetime64_scale'


def table(c):
    """The bundled table, line by line."""
    path = os.path.join(PKG, 'data/leap-seconds.txt')
    where = 'src/python/pyfes/data/leap-seconds.txt'
    try:
        lines = open(path, encoding='utf-8').read().splitlines()
    except OSError as e:
        raise AnalysisError(str(e)) from None
    want = {}
    for i, (y, m) in enumerate(LEAPS):
        days = datetime.date(y, m, 1).toordinal() - \
            datetime.date(1900, 1, 1).toordinal()
        want[days * 86400] = 10 + i
    got, last = {}, -1
    for n, line in enumerate(lines, 1):
        if not line.strip() or line.startswith('#'):
            continue
        m = ENTRY.match(line)
        if not c.need(m, f'table:line {line.strip()[:40]}', 'table',
                      f'{where}:{n}', 'the line is not read as an entry'):
            continue
        e, s = int(m.group(1)), int(m.group(2))
        c.need(e > last, f'table:order of {e}', 'table', f'{where}:{n}',
               'the entries are not in increasing order')
        last = e
        got[e] = s
        month = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
        d = datetime.date(1900, 1, 1) + datetime.timedelta(e // 86400)
        c.need(e % 86400 == 0 and m.group(3) == month[d.month - 1] and
               int(m.group(4)) == d.year and d.day == 1,
               f'table:date of {e}', 'table', f'{where}:{n}',
               f'{e} s is {d}, not 1 {m.group(3)} {m.group(4)}')
    for e, s in want.items():
        c.need(got.get(e) == s, f'table:entry {e}', 'table', where,
               f'TAI - UTC is {got.get(e)} from {e}, not {s}')
    for e in sorted(set(got) - set(want)):
        c.need(e > max(want), f'table:entry {e}', 'table', where,
               f'there was no leap second at {e}')
    c.floor('entries of the table', len(got), 28)
    c.need(any(re.match(r'^#.*File expires on[:\s]+(\d+\s\w+\s\d+)\s*$', x)
               for x in lines), 'table:expires', 'table', where,
           'the date of expiration cannot be read')


def days(c, F):
    """Constant folding of the count of days, month by month."""
    fn = F.one(DAYS)
    years = list(range(1901, 2040)) + [1, 4, 100, 101, 400, 1582, 1600, 1700,
                                       1800, 1900, 2100, 2200, 2400, 9999]
    if c.tier != 'quick':
        years = sorted(set(years + list(range(1, 10000, 3))))
    e = c.engine(F)
    names = [p['n'] for p in fn['params']]
    epoch = datetime.date(1970, 1, 1).toordinal()
    n = 0
    bad = []
    for y in years:
        for m in range(1, 13):
            for d in (1, calendar.monthrange(y, m)[1]):
                r = e.run(fn, args=dict(zip(names, map(T.num, (y, m, d)))))
                n += 1
                want = datetime.date(y, m, d).toordinal() - epoch
                if r.value != T.num(want):
                    bad.append(f'{y}-{m:02d}-{d:02d} is {T.show(r.value)}, '
                               f'not {want}')
    c.need(not bad, 'days', 'days', f"{rel(fn['file'])}:{fn['line']}",
           f'{len(bad)} dates: ' + '; '.join(bad[:6]),
           f'{n} dates')
    c.saw(fn)
    c.floor('dates folded', n, 3000)


def run(c):
    c.rule('value', 'result, exception and calls equal to the reference on '
           'every path')
    c.rule('signature', 'names, order and defaults of the parameters')
    c.rule('table', 'an entry of the bundled table')
    c.rule('days', 'days since 1970 of a calendar date')
    n = 2 if c.tier == 'quick' else 3
    ls = Pair(c, 'leap_seconds', 'py_leap_seconds',
              ['_load_leap_second_file', '_read_leap_second_file',
               '_download_leap_second_file'])
    for q in ('_read_leap_second_file', '_load_leap_second_file',
              'get_leap_seconds'):
        ls.equal(q, n)
    c.floor('paths', ls.paths, 50)
    table(c)
    F = FA.with_spec(c.facts(True), 'datemanip', FA.STUBS)
    for q, op in (('as_int64', {DAYS}), ('as_float64', {DAYS}),
                  ('scale', ()), ('epoch', {SCALE})):
        c.pair(F, F.one('verif::probe_' + q), oid=q, opaque=set(op))
    days(c, F)
