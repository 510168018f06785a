import math
import random
from fractions import Fraction as Q

import terms as T

META = dict(explanation='Value numbering of the predictions from series of '
            'dates and from maps, of the nodal modulations and of the '
            'harmonic analysis for symbolic dates, properties of waves and '
            'observations, against their definitions; of the selection of '
            'waves for durations on both sides of every threshold.',
            assumes='Eigen solves the systems it is given')

NAN = float('nan')


def sym(n):
    return ('sym', n)


def gauss(a, b):
    n = len(a)
    m = [list(map(float, r)) + [float(y)] for r, y in zip(a, b)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(m[r][i]))
        m[i], m[p] = m[p], m[i]
        for r in range(n):
            if r != i:
                k = m[r][i] / m[i][i]
                m[r] = [x - k * y for x, y in zip(m[r], m[i])]
    return [m[i][n] / m[i][i] for i in range(n)]


def least_squares(a, b):
    n = len(a[0])
    try:
        return gauss([[sum(r[i] * r[j] for r in a) for j in range(n)]
                      for i in range(n)],
                     [sum(r[i] * y for r, y in zip(a, b)) for i in range(n)])
    except (ZeroDivisionError, ValueError, OverflowError):
        return [NAN] * n


def lsq(i, *v):
    v = list(v)
    a = [v[4 * j:4 * j + 4] for j in range(5)]
    return least_squares(a, v[20:])[int(i)]


def solved(i, rows, cols, *v):
    """Unknown i of the solution, in the sense of least squares, of a system
    handed to a solver of Eigen."""
    rows, cols = int(rows), int(cols)
    a = [v[j * cols:(j + 1) * cols] for j in range(rows)]
    b = v[rows * cols:]
    if rows == cols:
        try:
            return gauss(a, b)[int(i)]
        except (ZeroDivisionError, ValueError, OverflowError):
            return NAN
    return least_squares(a, b)[int(i)]


SOLVERS = ('LDLT', 'LLT', 'PartialPivLU', 'FullPivLU', 'HouseholderQR',
           'ColPivHouseholderQR', 'FullPivHouseholderQR',
           'CompleteOrthogonalDecomposition', 'BDCSVD', 'JacobiSVD')


def decompose(e, c, st, fr):
    if not c['a']:
        return None
    m = e.mat(e.ev(c['a'][0], st, fr))
    return None if m is None else ('call', 'decomposition', m)


def decomposed(e, c, st, fr):
    m = e.mat(e.ev(c['o'], st, fr))
    return None if m is None else ('call', 'decomposition', m)


def solve(e, c, st, fr):
    d = e.ev(c['o'], st, fr)
    b = e.mat(e.ev(c['a'][0], st, fr))
    if d[:2] != ('call', 'decomposition') or b is None:
        return None
    m = d[2]
    return ('mat', m[2], 1, tuple(
        ('call', 'solved', T.num(i), T.num(m[1]), T.num(m[2])) + m[3] + b[3]
        for i in range(m[2])))


MODELS = {}
for s in SOLVERS:
    MODELS[f'Eigen::{s}::{s}'] = decompose
    MODELS[f'Eigen::{s}::solve'] = solve
    MODELS[f'Eigen::SolverBase::solve'] = solve
for b in ('MatrixBase', 'SelfAdjointView'):
    for m in ('ldlt', 'llt', 'partialPivLu', 'fullPivLu', 'householderQr',
              'colPivHouseholderQr', 'fullPivHouseholderQr',
              'completeOrthogonalDecomposition', 'lu'):
        MODELS[f'Eigen::{b}::{m}'] = decomposed


def observations(n):
    r = random.Random(23)
    for _ in range(n):
        seed = r.random()
        bad = r.random() < 0.2

        def pick(name, lo, hi, seed=seed):
            return lambda *a: random.Random(f'{seed} {name} {a}').uniform(
                lo, hi)

        h = pick('h', -3, 3)
        yield {('fn', 'verif::height'):
               (lambda j, h=h: NAN if j == 3 else h(j)) if bad else h,
               ('fn', 'verif::factor'): pick('f', 0.5, 1.5),
               ('fn', 'verif::phase'): pick('p', 0, 2 * math.pi),
               ('fn', 'verif::lsq'): lsq, ('fn', 'solved'): solved}


def run(c):
    c.rtol = 1e-9       # systems of equations
    c.rule('value', 'every element returned has the value number of its '
           'definition')
    F = c.spec('series')
    thorough = c.tier == 'thorough'
    P = lambda name: F.one('verif::probe_' + name)
    jobs = []
    for ix in range(4) if thorough else range(3):
        for f in range(3) if thorough else ((ix + 1) % 3, ):
            a = dict(ix=T.num(ix), formulae=T.num(f))
            for p in ('series', 'modulations'):
                jobs.append(lambda a=a, p=p, ix=ix, f=f: c.pair(
                    F, P(p), oid=f'{p}:{ix}:{f}', args=a))
            for n in (1, 2, 4) if thorough else (2 + ix, ):
                jobs.append(lambda a=a, ix=ix, f=f, n=n: c.pair(
                    F, P('mapping'), oid=f'mapping:{ix}:{f}:{n}',
                    args=dict(a, points=T.num(n))))
    jobs.append(lambda: c.pair(
        F, P('analysis'), args=dict(dates=T.num(5)), models=MODELS,
        sample=list(observations(2000 if thorough else 200))))
    # durations (hours) between the thresholds of the periods of the waves
    hours = [2, 3.5, 5, 7, 11, 12.5, 14, 21, 24.5, 30, 300, 340, 600, 5000,
             20000]
    for n, h in enumerate(hours if thorough else hours[::2]):
        f = (2, 1, 3)[n % 3]
        jobs.append(lambda h=h, f=f: c.pair(
            F, P('selected'), oid=f'selected:{h}:{f}',
            args=dict(duration=T.num(Q(h) * 3600 / f), f=T.num(f))))
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), 3 * len(jobs))
