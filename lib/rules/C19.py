import random
from fractions import Fraction as Q

import terms as T
from rules import C16, C17

META = dict(explanation='Value numbering of evaluations made with an '
            'accelerator already used for another date or another point: '
            'angles for three dates, tides for two dates within or beyond a '
            'tolerance, gridded and finite element models for two points, '
            'against what a new accelerator would give.',
            assumes='the mesh search is deterministic; the geometry of the '
            'triangles is the subject of C18')


def sym(n):
    return ('sym', n)


def dates(n):
    r = random.Random(19)
    for _ in range(n):
        e = Q(r.randint(-2 * 10**9, 2 * 10**9))
        tol = Q(r.choice((0, 0, 1, 3600)))
        env = {sym('tolerance'): tol, sym('formulae'): r.randrange(3)}
        for k in range(3):
            env[sym(f'epoch{k}')] = e
            env[sym(f'leap{k}')] = 10 * k + r.randrange(9)
            e += r.choice((Q(0), tol, -tol, tol / 2, -tol / 2, tol + 1,
                           -tol - 1, Q(r.randint(-10**7, 10**7))))
        yield env


def run(c):
    c.rule('value', 'the value computed with a used accelerator is that of a '
           'new one, angles serving within the tolerance of their date')
    thorough = c.tier == 'thorough'
    A, G, L, H = c.spec('cache'), c.spec('cartesian'), c.spec('lgp'), \
        c.spec('tide')
    big = ('limit', 'double', 'max')
    e0, e1, e2, tol = (sym(k) for k in ('epoch0', 'epoch1', 'epoch2',
                                        'tolerance'))

    def near(a, b, t):
        return T.cmp('<=', T.app('abs', T.sub(a, b)), t)

    far = tuple(T.lnot(near(x, big, tol)) for x in (e0, e1, e2))
    jobs = [lambda: c.pair(
        A, A.one('verif::probe_angles'), assume=far,
        sample=list(dates(2000 if thorough else 200)))]
    for k in (0, 1):
        for row in (0, 1):
            for nx, ny in ((4, 3), (2, 5)) if thorough else ((4, 3), ):
                jobs.append(lambda k=k, row=row, nx=nx, ny=ny: c.pair(
                    G, G.one('verif::probe_again'),
                    oid=f'grid:{k}:{row}:{nx}x{ny}',
                    args=dict(circular=T.num(k), row_major=T.num(row),
                              nx=T.num(nx), ny=T.num(ny)),
                    sample=list(C16.points(k, nx, ny, 4000 if thorough else 400))))
    for order in (1, 2):
        jobs.append(lambda order=order: c.pair(
            L, L.one(f'verif::probe_again{order}'),
            args=dict(n=T.num(C17.NODES)), models=C17.MODELS,
            sample=list(C17.cases(order, 10000 if thorough else 1000))))
    for s in range(8) if thorough else (1, 6):
        for same in (0, 1):
            w = near(e1, e0, tol)
            jobs.append(lambda s=s, same=same, w=w: c.pair(
                H, H.one('verif::probe_tolerance'), oid=f'tide:{s}:{same}',
                assume=far[:2] + ((w if same else T.lnot(w)), ),
                args=dict(step=T.num(s), type=T.num(1),
                          formulae=T.num(s % 3))))
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), 6 * len(jobs))
