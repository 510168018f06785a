"""What the entry point of the package must do (see rules/C21.py)."""
from __future__ import annotations

from . import core
from .core import Formulae
from .leap_seconds import get_leap_seconds


class Settings(core.Settings):

    def __init__(self, *, astronomic_formulae=Formulae.kSchuremanOrder1,
                 time_tolerance=0.0, excluded=None):
        super().__init__(astronomic_formulae, time_tolerance,
                         [core.constituents.parse(x) for x in excluded or []])


def evaluate_tide(tidal_model, date, longitude, latitude, *, settings=None,
                  num_threads=0):
    return core.evaluate_tide(tidal_model, date, get_leap_seconds(date),
                              longitude, latitude, settings, num_threads)
