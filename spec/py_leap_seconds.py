"""How leap seconds must be looked up (see rules/C22.py)."""
from __future__ import annotations

import datetime
import pathlib
import re
import warnings

import numpy

LEAP_SECOND_FILE = pathlib.Path(__file__).parent / 'data' / 'leap-seconds.txt'


def _read_leap_second_file(download=False):
    if download or not LEAP_SECOND_FILE.exists():
        _download_leap_second_file()
    with LEAP_SECOND_FILE.open('r') as stream:
        lines = stream.readlines()
    for line in lines:
        match = re.match(r'^#.*File expires on[:\s]+(\d+\s\w+\s\d+)\s*$',
                         line)
        if match:
            day, name, year = match.group(1).split()
            month = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug',
                     'Sep', 'Oct', 'Nov', 'Dec'].index(name[:3]) + 1
            day = int(day)
            year = int(year)
            return (numpy.datetime64(f'{year}-{month:02d}-{day:02d}'), lines)
    raise RuntimeError


def _load_leap_second_file():
    expires, lines = _read_leap_second_file()
    if expires < numpy.datetime64('today'):
        try:
            expires, lines = _read_leap_second_file(True)
        except (RuntimeError, OSError):
            pass  # the expired file is used
    entries = []
    for line in lines:
        match = re.match(r'^(\d+)\s+(\d+)\s+#\s1\s\w{3}\s\d{4}$', line)
        if match:
            # 2 208 988 800 s between 1900 and 1970
            entries.append((numpy.datetime64(
                int(match.group(1)) - 2208988800, 's'), int(match.group(2))))
    return numpy.array(entries, dtype=[('utc', 'datetime64[s]'),
                                       ('seconds', 'uint16')])


def get_leap_seconds(utc, sorter=None):
    dates = utc
    if isinstance(dates, datetime.datetime):
        dates = numpy.array([numpy.datetime64(dates)],
                            dtype='datetime64[ns]')
    elif isinstance(dates, numpy.datetime64):
        dates = numpy.array([dates], dtype='datetime64[ns]')
    if numpy.any(dates < numpy.datetime64('1972-01-01')):
        raise ValueError
    table = _load_leap_second_file()
    # The last entry that is not after the date.
    return table['seconds'][
        numpy.searchsorted(table['utc'], dates, side='right') - 1]
