import math
import random
from fractions import Fraction as Q

import absint
import terms as T

META = dict(explanation='Value numbering of mesh::Index::search for symbolic '
            'meshes of one and three triangles, positions and permitted '
            'distance, what Boost answers for a triangle (inclusion, '
            'distance, closest point) being arbitrary functions of its '
            'vertices and of the point, and the distance to a vertex that of '
            'the Earth-centred coordinates.',
            assumes='Boost.Geometry answers correctly, and its R-tree gives '
            'the requested number of nearest vertices')


def sym(n):
    return ('sym', n)


def cases(n):
    r = random.Random(26)
    for _ in range(n):
        seed = r.random()
        cover = r.choice((0, 0, 0.3, 0.6))

        def pick(name, f, seed=seed):
            return lambda *a: f(random.Random(
                f'{seed} {name} {[round(float(x), 9) for x in a]}'))

        env = {sym('x'): Q(r.randint(-1800, 1800), 10),
               sym('y'): Q(r.randint(-900, 900), 10),
               ('fn', 'verif::straight'): lambda *a: math.dist(
                   a[:3], a[3:]),
               ('fn', 'verif::covers'): pick(
                   'c', lambda r, cover=cover: r.random() < cover),
               ('fn', 'verif::tri_distance'): pick(
                   'd', lambda r: r.randint(0, 10**6)),
               ('fn', 'verif::proj_x'): pick(
                   'px', lambda r: r.randint(-180, 180)),
               ('fn', 'verif::proj_y'): pick(
                   'py', lambda r: r.randint(-90, 90)),
               sym('max_distance'): r.choice((
                   Q(0), Q(1, 1000), Q(10**5), Q(10**6), Q(6 * 10**6)))}
        for i in range(5):
            if r.random() < .2:
                # on the vertex, or one or ten metres away
                env[sym(f'lon{i}')] = env[sym('x')] + 360 * r.randint(-1, 1)
                env[sym(f'lat{i}')] = env[sym('y')] + r.choice(
                    (Q(0), Q(1, 10**8), Q(1, 10**5), Q(1, 10**4)))
            else:
                env[sym(f'lon{i}')] = Q(r.randint(-3600, 3600), 10)
                env[sym(f'lat{i}')] = Q(r.randint(-900, 900), 10)
        yield env


def call(name, *a):
    return ('call', 'verif::' + name) + a


def point(e, v):
    return (e.select(v, ('f', '#0')), e.select(v, ('f', '#1')))


def vertices(e, tri):
    ring = e.select(tri, ('f', '#outer'))
    return sum((point(e, e.select(ring, ('i', T.num(i))))
                for i in range(3)), ())


def ontri(name):
    def f(e, c, st, fr):
        p = point(e, e.ev(c['a'][0], st, fr))
        return call(name, *p, *vertices(e, e.ev(c['o'], st, fr)))
    return f


def covered(e, c, st, fr):
    return e.truth(ontri('covers')(e, c, st, fr))


def project(e, c, st, fr):
    loc = (e.newloc('point'), ())
    for i, n in enumerate(('proj_x', 'proj_y')):
        e.write_raw(st, e.ext(loc, ('f', f'#{i}')), ontri(n)(e, c, st, fr))
    return e.read(st, loc)


def distance(e, c, st, fr):
    a, b = (e.ev(x, st, fr) for x in c['a'])
    return call('straight', *[e.select(p, ('f', f'#{i}'))
                              for p in (a, b) for i in range(3)])


def tree(e, c, st, fr):
    """The tree is the list of the values it is built from."""
    if not c['a']:
        return ('list', ())
    b = e.ev(c['a'][0], st, fr)
    if b[0] != 'it':
        return e.ev(c['a'][0], st, fr) if len(c['a']) == 1 else None
    return e.read(st, e.deref(b[1]))


def limit(e, v):
    """Number of values a query may give."""
    k = T.const(v[-1]) if v[0] == 'call' and v[1].endswith('nearest') else None
    if k is None:
        raise absint.AnalysisError('query of the tree not understood')
    return int(k)


def first(e, c, st, fr):
    e.neighbours = limit(e, e.ev(c['a'][0], st, fr))
    return ('it', e.ptr(e.objpath(c, st, fr)), T.ZERO)


def last(e, c, st, fr):
    p = e.objpath(c, st, fr)
    n = T.const(e.size_of(e.read(st, p)))
    return ('it', e.ptr(p), T.num(min(int(n), e.neighbours)))


def query(e, c, st, fr):
    k = limit(e, e.ev(c['a'][0], st, fr))
    out = e.ev(c['a'][1], st, fr)
    v = e.read(st, e.objpath(c, st, fr))
    if out[0] != 'inserter' or out[1][0] != 'ptr':
        raise absint.AnalysisError('query of the tree not understood')
    p = e.deref(out[1])
    e.write(st, p, ('list', e.read(st, p)[1] + v[1][:k]), fr, c['l'])
    return T.num(min(k, len(v[1])))


RTREE = 'boost::geometry::index::rtree::'
MODELS = {
    RTREE + 'rtree': tree,
    RTREE + 'qbegin': first,
    RTREE + 'qend': last,
    RTREE + 'query': query,
    'fes::geometry::Triangle::covered_by': covered,
    'fes::geometry::Triangle::distance': ontri('tri_distance'),
    'fes::geometry::Triangle::project': project,
    'boost::geometry::distance': distance,
}


def run(c):
    c.rule('value', 'the triangle found, its point and its vertices are those '
           'of the definition of the search')
    F = c.spec('mesh')
    n = 400 if c.tier == 'quick' else 10000
    c.batch([lambda m=m: c.pair(
        F, F.one('verif::probe_search'), oid=f'search:{m}',
        args=dict(mesh=T.num(m)), models=MODELS, sample=list(cases(n)))
        for m in (0, 1)])
    c.floor('obligations', len(c.obligations), 20)
