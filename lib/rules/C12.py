import random
from fractions import Fraction as Q

import streams
import terms as T
from rules import C17, C26

META = dict(explanation='Value numbering of the writing of a state followed '
            'by its reading, for symbolic axes, meshes, grids and finite '
            'element models: the state is the sequence of the fields the '
            'writer puts, and the object read back is compared with the '
            'original by what it answers (positions, searches, types, '
            'constituents, dynamic constituents, interpolation, addition of '
            'a constituent).',
            assumes='a byte written to a std::stringstream is read back '
            'unchanged; the shapes are those of the probes (2 triangles, '
            'grids of 3 by 2, 1 to 3 constituents); the state is read by a '
            'machine of the same byte order')

STREAMS = streams.MODELS


def sym(n):
    return ('sym', n)


def finite(r, names, env):
    for n in names:
        env[sym(n)] = Q(r.randint(-900, 900), 8)
    return env


def nodes(r):
    seed = r.random()

    def part(name):
        return lambda *a: Q(random.Random(f'{seed} {name} {a}').randint(
            -9999, 9999), 100)
    return {('fn', 'verif::node_re'): part('re'),
            ('fn', 'verif::node_im'): part('im')}


def axes(n):
    r = random.Random(12)
    for _ in range(n):
        env = finite(r, ('start', ), {})
        step = Q(r.randint(1, 360), r.choice((1, 4, 7))) * r.choice((1, -1))
        env.update({sym('step'): step, sym('ascending'): int(step > 0),
                    sym('size'): r.choice((2, 3, 360, 2**40)),
                    sym('circular'): r.randint(0, 1)})
        yield env


def grids(n):
    r = random.Random(13)
    for _ in range(n):
        env = finite(r, ('lon', 'lat'), nodes(r))
        for s in ('dx', 'dy'):
            env[sym(s)] = Q(r.randint(1, 40), 4) * r.choice((1, -1))
        for s in ('circular', 'row_major'):
            env[sym(s)] = r.randint(0, 1)
        env[sym('tide')] = r.randint(1, 2)
        yield env


def meshes(n):
    for env in C26.cases(n):
        yield {**env, **{sym(f'x{i}'): env[sym(f'lon{i}')] for i in range(4)},
               **{sym(f'y{i}'): env[sym(f'lat{i}')] for i in range(4)},
               sym('d'): env[sym('max_distance')]}


def lgps(order, n):
    r = random.Random(14)
    for env in C17.cases(order, n):
        yield {**env, **nodes(r), sym('distance'): env[sym('max_distance')]}


POINTS = ((10, 5), (13, 4), (14, 2), (11, 3), (30, 4), (12, 9))


def run(c):
    c.rule('value', 'the object read from a state answers as the one that '
           'was written')
    F = c.spec('state')
    n = 300 if c.tier == 'quick' else 5000
    p = lambda s: F.one('verif::probe_' + s)
    jobs = [lambda: c.pair(F, p('axis'), sample=list(axes(n)),
                           models=STREAMS),
            lambda: c.pair(F, p('mesh'), sample=list(meshes(n)),
                           models={**C26.MODELS, **STREAMS})]
    for row in (0, 1):
        jobs.append(lambda row=row: c.pair(
            F, p('axes'), oid=f'axes:{row}', args=dict(row_major=T.num(row)),
            sample=list(grids(n)), models=STREAMS))
        for i, (x, y) in enumerate(POINTS):
            for s in ('grid', 'gridf'):
                a = dict(row_major=row, tide=1 + i % 2, circular=0, lon=10,
                         dx=2, lat=5, dy=-3, x=x, y=y)
                jobs.append(lambda a=a, s=s, i=i, row=row: c.pair(
                    F, p(s), oid=f'{s}:{row}:{i}',
                    args={k: T.num(v) for k, v in a.items()},
                    models=STREAMS))
    for s in ('lgp1', 'lgp1f', 'lgp2', 'lgp2f'):
        for tide in (1, 2):
            jobs.append(lambda s=s, tide=tide: c.pair(
                F, p(s), oid=f'{s}:{tide}', args=dict(tide=T.num(tide)),
                sample=list(lgps(int(s[3]), n)),
                models={**C17.MODELS, **STREAMS}))
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), 10 * len(jobs))
