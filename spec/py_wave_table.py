"""What the Python wave tables must do (see rules/C21.py)."""
from __future__ import annotations

import datetime

import numpy

from . import core
from .core import Formulae


class WaveTable(core.WaveTable):

    def compute_nodal_modulations(self, dates, leap_seconds,
                                  formulae=Formulae.kSchuremanOrder1):
        if isinstance(dates, list):
            for item in dates:
                if not isinstance(item, datetime.datetime):
                    break
            else:
                dates = numpy.array(
                    [core.datemanip.as_int64(item) for item in dates],
                    dtype='datetime64[us]')
        return super().compute_nodal_modulations(dates, leap_seconds,
                                                 formulae)

    def freq(self):
        return numpy.array([wave.freq for wave in self], dtype=numpy.float64)

    @staticmethod
    def harmonic_analysis(h, f, vu):
        return core.WaveTable.harmonic_analysis(h, f, vu)


class WaveDict(WaveTable):

    def freq(self):
        return {wave.name(): wave.freq for wave in self}

    def harmonic_analysis(self, h, f, vu):
        values = core.WaveTable.harmonic_analysis(h, f, vu)
        return dict(zip(self.keys(), values))

    def tide_from_tide_series(self, dates, leap_seconds, wave,
                              formulae=Formulae.kSchuremanOrder3):
        if len(wave) != len(self):
            raise ValueError
        return super().tide_from_tide_series(
            dates, leap_seconds,
            numpy.array([wave[name] for name in self.keys()]), formulae)
