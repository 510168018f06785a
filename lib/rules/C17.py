import random
from fractions import Fraction as Q

import terms as T

META = dict(explanation='Value numbering of LGP1/LGP2::interpolate for '
            'symbolic points, codes and nodal values against the Lagrange '
            'interpolation, what the mesh search and the triangle answer '
            'being arbitrary functions; interpretations are drawn so that no '
            'triangle, vertices, inner points and projections all occur.',
            assumes='the mesh search is the subject of C26, the geometry of '
            'the triangles of C18')

NAN = float('nan')
NODES = 5


def sym(n):
    return ('sym', n)


def cases(order, n):
    r = random.Random(order)
    for i in range(n):
        seed = r.random()
        cells = [[r.randrange(NODES) for _ in range(3 * order)]
                 for _ in range(2)]
        cells[r.randrange(2)][r.randrange(3 * order)] = NODES - 1

        def pick(name, f, seed=seed):
            def g(*a):
                return f(random.Random(f'{seed} {name} {a}'))
            return ('fn', 'verif::' + name), g

        def code(t, i, cells=cells):
            return cells[int(t)][int(i)] if 0 <= t < 2 and \
                0 <= i < 3 * order else 0

        half = lambda r: r.random() < 0.5
        number = lambda r: Q(r.randint(-999, 999), 100)
        inside = pick('inside_of', half)
        index = pick('index_of', lambda r: r.choice((-1, 0, 0, 1, 1)))
        px, py = pick('proj_x', number), pick('proj_y', number)
        env = {sym('max_distance'): r.randint(0, 3),
               sym('d'): None, ('fn', 'verif::code'): code}
        same = r.random() < 0.2
        for s in ('x', 'y'):
            env[sym(s)] = number(r)
            env[sym(s + '0')] = env[sym(s)] if same else number(r)
        env[sym('d')] = env[sym('max_distance')]
        for k, f in (
                inside, index, px, py,
                pick('vertex_of', lambda r: r.choice((-1, -1, 0, 1, 2))),
                pick('xi_of', lambda r: Q(r.randint(0, 100), 100)),
                pick('eta_of', lambda r: Q(r.randint(0, 100), 100)),
                pick('covers', half),
                pick('node_re', lambda r: number(r) if r.random() < .95
                     else NAN),
                pick('node_im', number)):
            env[k] = f
        yield env


def point(e, v):
    return (e.select(v, ('f', '#0')), e.select(v, ('f', '#1')))


def call(name, *a):
    return ('call', 'verif::' + name) + a


def search(e, c, st, fr):
    x, y = point(e, e.ev(c['a'][0], st, fr))
    d = e.ev(c['a'][1], st, fr)
    loc = e.newloc('tmp')
    st.store[loc] = ('agg', 'fes::mesh::SelectedTriangle', ('undef', ''), ())
    p = (loc, ())
    for f, v in (('inside', e.truth(call('inside_of', x, y, d))),
                 ('index', call('index_of', x, y, d))):
        e.write_raw(st, e.ext(p, ('f', f)), v)
    for i, f in ((0, 'proj_x'), (1, 'proj_y')):
        e.write_raw(st, e.ext(e.ext(p, ('f', 'point')), ('f', f'#{i}')),
                    call(f, x, y, d))
    e.write_raw(st, e.ext(e.ext(p, ('f', 'triangle')), ('f', '#outer')),
                call('index_of', x, y, d))
    return e.read(st, p)


def onpoint(e, c, st, fr, f):
    t = e.select(e.ev(c['o'], st, fr), ('f', '#outer'))
    return f(t, *point(e, e.ev(c['a'][0], st, fr)))


MODELS = {
    'fes::mesh::Index::search': search,
    'fes::geometry::Triangle::covered_by': lambda e, c, st, fr: onpoint(
        e, c, st, fr, lambda t, x, y: call('covers', t, x, y)),
    'fes::geometry::Triangle::is_vertex': lambda e, c, st, fr: onpoint(
        e, c, st, fr, lambda t, x, y: call('vertex_of', t, x, y)),
    'fes::geometry::Triangle::reference_right_angled':
        lambda e, c, st, fr: onpoint(
            e, c, st, fr, lambda t, x, y: ('list', (
                call('xi_of', t, x, y), call('eta_of', t, x, y)))),
}


def run(c):
    c.rule('value', 'each constituent is the sum of its nodal values weighted '
           'by the Lagrange polynomials')
    F = c.spec('lgp')
    n = 400 if c.tier == 'quick' else 10000
    jobs = []
    for p in ('double1', 'double2', 'float1', 'float2'):
        jobs.append(lambda p=p: c.pair(
            F, F.one('verif::probe_' + p), args=dict(n=T.num(NODES)),
            sample=list(cases(int(p[-1]), n)), models=MODELS))
    for order in (1, 2):
        # a second position with the same accelerator
        jobs.append(lambda order=order: c.pair(
            F, F.one(f'verif::probe_again{order}'),
            args=dict(n=T.num(NODES)), models=MODELS,
            sample=list(cases(order, n))))
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), 8 * len(jobs))
