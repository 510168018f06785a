import random
from fractions import Fraction as Q

import terms as T

META = dict(explanation='Value numbering of Cartesian::interpolate for '
            'symbolic axes, values and positions on grids of several shapes, '
            'in both memory orders, against the bilinear combination of the '
            'four enclosing nodes; interpretations are drawn so that interior '
            'points, edges, nodes, the closing cell of a circle, other turns, '
            'points outside and undefined nodes all occur.',
            assumes='the constituents of a model are undefined at the same '
            'nodes')

NAN = float('nan')
QUALITY = dict(kUndefined=0, kExtrapolated1=1, kExtrapolated2=2,
               kExtrapolated3=3, kInterpolated=4)


def sym(n):
    return ('sym', n)


def coordinate(r, start, step, size, turn):
    if r.random() < 0.02:
        return NAN
    q = r.choice((Q(r.randint(-1, size), 1), Q(r.randint(-4, 4 * size), 4),
                  Q(r.randint(0, 97 * (size - 1)), 97),
                  Q(r.randint(-97, 97 * size), 97)))
    x = start + q * step
    if turn and r.random() < 0.5:
        x += 360 * r.randint(-2, 2)
    return x


def cases(circular, nx, ny, n):
    r = random.Random(nx * 100 + ny)
    for i in range(n):
        if circular:
            dx = Q(360, nx)
        else:
            dx = r.choice((Q(1, 4), Q(1), Q(10)))
        x0 = Q(r.choice((0, -180, -90, 10, 100, 180)))
        dy = r.choice((Q(1, 4), Q(1), Q(10)))
        y0 = Q(r.choice((-90, -10, 0, 45)))
        if r.random() < 0.5:
            dx = -dx
        if r.random() < 0.5:
            dy = -dy
        hole = r.choice((0, 0, 0.3, 0.6, 1))
        hidden = {(i, j) for i in range(nx) for j in range(ny)
                  if r.random() < hole}
        seed = r.random()

        def node(part):
            def f(ident, i, j):
                if (i, j) in hidden:
                    return NAN
                return Q(random.Random(f'{seed} {part} {ident} {i} {j}')
                         .randint(-999, 999), 100)
            return f

        yield {sym('x0'): x0, sym('dx'): dx, sym('y0'): y0, sym('dy'): dy,
               sym('lon'): coordinate(r, x0, dx, nx, circular),
               sym('lat'): coordinate(r, y0, dy, ny, False),
               ('fn', 'verif::node_re'): node('re'),
               ('fn', 'verif::node_im'): node('im')}


def points(circular, nx, ny, n):
    r = random.Random(31 * nx + ny + circular)
    for env in cases(circular, nx, ny, n):
        x0, dx, y0, dy = (env[sym(k)] for k in ('x0', 'dx', 'y0', 'dy'))
        env[sym('lon0')] = env[sym('lon')] if r.random() < .3 else \
            coordinate(r, x0, dx, nx, circular)
        env[sym('lat0')] = env[sym('lat')] if r.random() < .3 else \
            coordinate(r, y0, dy, ny, False)
        yield env


def run(c):
    c.rule('value', 'each constituent is the bilinear combination of its own '
           'values at the four enclosing nodes, the quality their number')
    c.rule('quality', 'the quality is the number of nodes used')
    F = c.spec('cartesian')
    en = F.enum.get('fes::Quality', {})
    for k, v in QUALITY.items():
        c.need(en.get(k) == v, 'quality:' + k, 'quality',
               'include/fes/abstract_tidal_model.hpp (fes::Quality)',
               f'{k} is {en.get(k)}, not {v}')
    n = 400 if c.tier == 'quick' else 5000
    shapes = [(4, 3), (2, 2)] if c.tier == 'quick' else [
        (4, 3), (2, 2), (3, 4), (5, 2), (2, 5), (6, 4)]
    jobs = []
    for t in ('double', 'float'):
        for k in (0, 1):
            for row in (0, 1):
                for nx, ny in shapes:
                    jobs.append(lambda t=t, k=k, row=row, nx=nx, ny=ny: c.pair(
                        F, F.one('verif::probe_' + t),
                        oid=f'{t}:{k}:{row}:{nx}x{ny}',
                        args=dict(circular=T.num(k), row_major=T.num(row),
                                  nx=T.num(nx), ny=T.num(ny)),
                        sample=list(cases(k, nx, ny, n))))
    for k in (0, 1):
        # a second position with the same accelerator
        jobs.append(lambda k=k: c.pair(
            F, F.one('verif::probe_again'), oid=f'again:{k}',
            args=dict(circular=T.num(k), row_major=T.num(1), nx=T.num(4),
                      ny=T.num(3)), sample=list(points(k, 4, 3, n))))
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), 8 * len(jobs))
