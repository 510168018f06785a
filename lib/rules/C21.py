import pyvn as P
from pyrule import Pair

META = dict(explanation='The functions of the Python files are value '
            'numbered: parameters and everything imported (the compiled '
            'module, NumPy, netCDF4, YAML) are symbols, calls are '
            'uninterpreted, conditions are atoms. On every path, for '
            'iterables of up to 2 elements (3: thorough), the result, the '
            'class of the exception and the calls made on each object must '
            'be those of the reference of spec/py_*.py. Parameters, their '
            'defaults, fields of the configuration, enumerators, base '
            'classes and the names of the package are compared as well.',
            technique='static analysis: value numbering of the syntax tree '
            'of the Python files against a reference',
            assumes='The compiled module, NumPy, netCDF4 and YAML do what '
            'they document (C20 checks the compiled module). Bound: '
            'iterables longer than 2 (3) are not unrolled further. Messages '
            'of exceptions are not compared.')

PRIVATE = ['_expand', '_parse', 'parse', '_load_model', 'Loader',
           'load_cartesian_model']

#: what __post_init__ lets through
KINDS = ((('attr', P.SELF, 'type'), (P.C('lgp1'), P.C('lgp2'))),
         (('attr', P.SELF, 'tidal_type'), (P.C('tide'), P.C('radial'))))


def run(c):
    c.rule('value', 'result, exception and calls equal to the reference on '
           'every path')
    c.rule('signature', 'names, order and defaults of the parameters')
    c.rule('class', 'base class, fields and enumerators of a class')
    n = 2 if c.tier == 'quick' else 3
    cfg = Pair(c, 'config', 'py_config', PRIVATE)
    settings = ('p', 'settings')
    own = [settings, ('p', 'contents')] + [
        ('sub', settings, P.C(x)) for x in ('cartesian', 'lgp')]
    for q in ('_expand', '_parse', 'load_cartesian_model',
              'Common.__post_init__', 'Common.dynamic_constituents',
              'Cartesian.__post_init__', 'Cartesian.load',
              'LGP.__post_init__', 'LGP.load', 'parse', '_load_model',
              'load'):
        cfg.equal(q, 2 if q == 'LGP.load' else n, own,
                  raises={'.format': 'KeyError'}.items()
                  if q == 'LGP.__post_init__' else (),
                  also=['_parse'] if q == '_parse' else (),
                  assume=() if q.endswith('__post_init__') else KINDS)
    cfg.classes()
    wt = Pair(c, 'wave_table', 'py_wave_table')
    for q in ('WaveTable.compute_nodal_modulations', 'WaveTable.freq',
              'WaveTable.harmonic_analysis', 'WaveDict.freq',
              'WaveDict.harmonic_analysis', 'WaveDict.tide_from_tide_series'):
        wt.equal(q, n + 1)
    wt.classes()
    aa = Pair(c, 'astronomic_angle', 'py_astronomic_angle')
    for q in ('AstronomicAngle.__init__', 'AstronomicAngle.update'):
        aa.equal(q, n, objects=[('p', 'date')])
    aa.classes()
    pk = Pair(c, '__init__', 'py_init')
    for q in ('Settings.__init__', 'evaluate_tide'):
        pk.equal(q, n)
    pk.classes()
    pk.names({'AstronomicAngle': 'astronomic_angle.AstronomicAngle',
              'load_config': 'config.load', 'Constituent': 'core.Constituent',
              'Formulae': 'core.Formulae', 'constituents':
              'core.constituents', 'get_leap_seconds':
              'leap_seconds.get_leap_seconds', 'core': 'core',
              'WaveDict': 'wave_table.WaveDict',
              'WaveTable': 'wave_table.WaveTable'})
    c.floor('paths', sum(x.paths for x in (cfg, wt, aa, pk)), 800)
    c.floor('statements interpreted',
            sum(len(x.lines) for x in (cfg, wt, aa, pk)), 120)
