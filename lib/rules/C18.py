import random
from fractions import Fraction as Q

import terms as T

META = dict(explanation='Value numbering of the primitives on points and '
            'triangles: WGS84 coordinates, reduction of longitudes, vertices '
            'of a triangle and their replacement, vertex recognition, '
            'coordinates in the reference triangle (for triangles and points '
            'given on any turn, across the antimeridian, flat triangles).',
            assumes='Boost.Geometry compares points and tests inclusion '
            'correctly')


def sym(n):
    return ('sym', n)


def q(r, lo, hi):
    return Q(r.randint(lo * 64, hi * 64), 64)


def triangles(n):
    r = random.Random(7)
    done = 0
    while done < n:
        ox, oy = q(r, -180, 180), q(r, -60, 60)
        if r.random() < 0.4:
            ox = Q(180) if r.random() < 0.5 else Q(-180)
        p = [(ox + q(r, -20, 20), oy + q(r, -20, 20)) for _ in range(3)]
        det = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - \
            (p[2][0] - p[0][0]) * (p[1][1] - p[0][1])
        if abs(det) < Q(1, 100):
            continue
        w = [r.choice((Q(0), Q(1), Q(r.randint(1, 9)))) for _ in range(3)]
        if sum(w) == 0:
            continue
        x = sum(a * b[0] for a, b in zip(w, p)) / sum(w)
        y = sum(a * b[1] for a, b in zip(w, p)) / sum(w)
        done += 1
        env = {sym('x'): x, sym('y'): y, sym('k'): r.randint(-2, 2)}
        for i in range(3):
            env[sym(f'x{i + 1}')] = p[i][0]
            env[sym(f'y{i + 1}')] = p[i][1]
            env[sym(f'k{i + 1}')] = r.randint(-2, 2)
        yield env


def flats(n):
    r = random.Random(8)
    for _ in range(n):
        yield {sym('x1'): q(r, -100, 100), sym('y1'): q(r, -50, 50),
               sym('dx'): q(r, -5, 5), sym('dy'): q(r, -5, 5),
               sym('s'): q(r, -2, 2), sym('t'): q(r, -2, 2),
               sym('x'): q(r, -100, 100), sym('y'): q(r, -50, 50)}


def angles(n):
    r = random.Random(9)
    for _ in range(n):
        m = r.choice((Q(0), Q(-180), q(r, -720, 720)))
        yield {sym('x'): r.choice((m, m + 360, m - 360, q(r, -900, 900),
                                   Q(180), Q(-180), Q(540))), sym('min'): m}


def degrees(t, rnd):
    if t[0] == 'sym' and t[1] in ('lon', 'lat'):
        return rnd.uniform(-400, 400) if t[1] == 'lon' else \
            rnd.uniform(-90, 90)


def point(e, v):
    return (e.select(v, ('f', '#0')), e.select(v, ('f', '#1')))


def equals(e, call, st, fr):
    a, b = [point(e, e.ev(x, st, fr)) for x in call['a']]
    return same_points(a, b)


def same(e, call, st, fr):
    v = [e.ev(x, st, fr) for x in call['a']]
    return same_points(tuple(v[:2]), tuple(v[2:]))


def same_points(a, b):
    a, b = sorted((a, b), key=repr)
    return ('call', 'same', ) + a + b


def run(c):
    c.rtol = 1e-9       # ill-conditioned geometry
    c.rule('value', 'the primitive has the value number of its definition')
    F = c.spec('geometry')
    n = 1000 if c.tier == 'quick' else 20000
    P = lambda name: F.one('verif::probe_' + name)
    jobs = [
        lambda: c.pair(F, P('ecef'), domain=degrees),
        lambda: c.pair(F, P('reference'), sample=list(triangles(n))),
        lambda: c.pair(F, P('flat'), sample=list(flats(n))),
        lambda: c.pair(F, P('vertices')),
        lambda: c.pair(F, P('replaced')),
        lambda: c.pair(F, P('vertex'), models={
            'boost::geometry::equals': equals, 'verif::same': same}),
        lambda: c.pair(F, P('normalized'), sample=list(angles(n))),
        lambda: c.pair(F, P('longitude'), sample=list(angles(n))),
    ]
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), 20)
