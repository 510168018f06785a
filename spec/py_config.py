"""What loading a configuration must do (see rules/C21.py)."""
from __future__ import annotations

import dataclasses
import enum
import os
import re

import netCDF4
import numpy
import yaml

from . import core

PATTERN = re.compile(r'\${(\w+)}').search


class Loader(yaml.Loader):
    pass


def _expand(rawval):
    # Every ${NAME} is replaced by the variable of the environment, also those
    # that its value contains, ten of them at most.
    if '$' not in rawval:
        return rawval
    text = rawval
    replaced = False
    for _ in range(10):
        match = PATTERN(text)
        if match is None:
            break
        if match.group(1) not in os.environ:
            raise InterpolationError
        text = (text[:match.start()] + os.environ[match.group(1)]
                + text[match.end():])
        replaced = True
    if replaced and '$' in text:
        raise InterpolationDepthError
    return text


def _parse(contents):
    if isinstance(contents, dict):
        for key, value in contents.items():
            contents[key] = _parse(value)
        return contents
    if isinstance(contents, list):
        for i, value in enumerate(contents):
            contents[i] = _parse(value)
        return contents
    if isinstance(contents, str):
        return _expand(contents)
    return contents


def radians(variable):
    values = numpy.ma.filled(variable[:], numpy.nan)
    if variable.units.lower() in ('degree', 'degrees', 'deg'):
        return numpy.radians(values)
    return values


def complex_wave(amp, pha):
    return amp * (numpy.cos(pha) + 1j * numpy.sin(pha))


def load_cartesian_model(path, lon_name, lat_name, amp_name, pha_name):
    with netCDF4.Dataset(path) as ds:
        amp = numpy.ma.filled(ds.variables[amp_name][:], numpy.nan)
        pha = radians(ds.variables[pha_name])
        return (ds.variables[lon_name][:], ds.variables[lat_name][:],
                complex_wave(amp, pha))


class TideType(enum.Enum):
    TIDE = core.kTide
    RADIAL = core.kRadial


class LGPType(enum.Enum):
    LGP1 = 'lgp1'
    LGP2 = 'lgp2'


@dataclasses.dataclass(frozen=True)
class Common:
    latitude: str = 'lat'
    longitude: str = 'lon'
    tidal_type: str = 'tide'
    dynamic: list = dataclasses.field(default_factory=list)

    def __post_init__(self):
        if self.tidal_type not in ('tide', 'radial'):
            raise ValueError
        if not self.longitude or not self.latitude:
            raise ValueError
        for item in self.dynamic:
            if item not in core.constituents.known():
                raise ValueError

    @property
    def dynamic_constituents(self):
        return [core.constituents.parse(x) for x in self.dynamic]


def same_grid(dtype, lon, lat, shape, dtype2, lon2, lat2, shape2):
    return (dtype == dtype2 and shape == shape2 and len(lon) == len(lon2)
            and len(lat) == len(lat2) and numpy.allclose(lon, lon2)
            and numpy.allclose(lat, lat2))


@dataclasses.dataclass(frozen=True)
class Cartesian(Common):
    amplitude: str = 'amplitude'
    paths: dict = dataclasses.field(default_factory=dict)
    phase: str = 'phase'
    epsilon: float = 1e-6

    def __post_init__(self):
        super().__post_init__()
        for item in self.paths:
            core.constituents.parse(item)
        if not self.paths or not self.amplitude or not self.phase:
            raise ValueError

    def load(self):
        model = None
        first = None
        for constituent, path in self.paths.items():
            if not os.path.exists(path):
                raise FileNotFoundError
            lon, lat, wave = load_cartesian_model(
                path, self.longitude, self.latitude, self.amplitude,
                self.phase)
            if len(wave.shape) != 2:
                raise ValueError
            if model is None:
                if wave.dtype == numpy.complex64:
                    cls = core.tidal_model.CartesianComplex64
                elif wave.dtype == numpy.complex128:
                    cls = core.tidal_model.CartesianComplex128
                else:
                    raise ValueError
                model = cls(
                    core.Axis(lon, self.epsilon, True), core.Axis(lat),
                    TideType[self.tidal_type.upper()].value,
                    longitude_major=wave.shape[0] == len(lon))
                first = (wave.dtype, lon, lat, wave.shape)
            else:
                dtype, x, y, shape = first
                if not same_grid(dtype, x, y, shape, wave.dtype, lon, lat,
                                 wave.shape):
                    raise ValueError
            model.add_constituent(constituent, wave.ravel())
        if model is None:
            raise ValueError
        model.dynamic = self.dynamic_constituents
        return model


@dataclasses.dataclass(frozen=True)
class LGP(Common):
    amplitude: str = '{constituent}_amplitude'
    constituents: list = dataclasses.field(default_factory=list)
    codes: str = 'codes'
    max_distance: float = 0.0
    path: str = ''
    phase: str = '{constituent}_phase'
    triangle: str = 'triangle'
    type: str = 'lgp1'

    def __post_init__(self):
        super().__post_init__()
        for item in self.constituents:
            core.constituents.parse(item)
        if not self.path or not self.triangle or not self.codes:
            raise ValueError
        if not self.amplitude or not self.phase:
            raise ValueError
        if self.type not in ('lgp1', 'lgp2'):
            raise ValueError
        try:
            self.amplitude.format(constituent='M2')
            self.phase.format(constituent='M2')
        except KeyError:
            raise ValueError

    def _lgp_class(self, dtype):
        first = self.type == 'lgp1'
        if dtype == numpy.complex64:
            return (core.tidal_model.LGP1Complex64 if first else
                    core.tidal_model.LGP2Complex64)
        if dtype == numpy.complex128:
            return (core.tidal_model.LGP1Complex128 if first else
                    core.tidal_model.LGP2Complex128)
        raise ValueError

    def load(self):
        with netCDF4.Dataset(self.path) as ds:
            model = None
            for item in (self.constituents or core.constituents.known()):
                amp_name = self.amplitude.format(constituent=item)
                pha_name = self.phase.format(constituent=item)
                if amp_name not in ds.variables:
                    raise ValueError
                if pha_name not in ds.variables:
                    raise ValueError
                amp = numpy.ma.filled(ds.variables[amp_name][:], numpy.nan)
                wave = complex_wave(amp, radians(ds.variables[pha_name]))
                if model is None:
                    cls = self._lgp_class(wave.dtype)
                    index = core.mesh.Index(
                        ds.variables[self.longitude][:],
                        ds.variables[self.latitude][:],
                        ds.variables[self.triangle][:])
                    model = cls(index, ds.variables[self.codes][:],
                                TideType[self.tidal_type.upper()].value,
                                self.max_distance)
                model.add_constituent(item, wave)
            if model is None:
                raise AssertionError
            model.dynamic = self.dynamic_constituents
            return model


def parse(path):
    with open(path, encoding='utf-8') as stream:
        return _parse(yaml.load(stream, Loader=Loader))


def _load_model(settings, tidal_type):
    # The type of the tide is that of the section.
    if 'cartesian' in settings:
        if 'tidal_type' in settings['cartesian']:
            raise TypeError
        return Cartesian(tidal_type=tidal_type,
                         **settings['cartesian']).load()
    if 'lgp' in settings:
        if 'tidal_type' in settings['lgp']:
            raise TypeError
        return LGP(tidal_type=tidal_type, **settings['lgp']).load()
    raise ValueError


def load(path):
    settings = parse(path)
    if settings is None or not settings:
        raise ValueError
    models = {}
    for key in settings:
        if key != 'tide' and key != 'radial':
            raise ValueError
        try:
            models[key] = _load_model(settings[key], key)
        except TypeError as err:
            if 'unexpected keyword argument' in str(err):
                raise ValueError
            raise
    return models
