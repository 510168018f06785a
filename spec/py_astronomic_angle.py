"""What the Python astronomic angles must do (see rules/C21.py)."""
from __future__ import annotations

import datetime

from . import core
from .core import Formulae
from .leap_seconds import get_leap_seconds


class AstronomicAngle(core.AstronomicAngle):

    def __init__(self, formulae=Formulae.kSchuremanOrder1):
        super().__init__(formulae)
        self.date = None

    def update(self, date=None):
        when = datetime.datetime.utcnow() if date is None else date
        super().update(when, get_leap_seconds(when)[0])
        self.date = when
