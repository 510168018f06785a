import itertools
import random

import terms as T
from rules import C15

META = dict(explanation='Value numbering of every entry point that takes '
            'several arrays, or a value in a range, with symbolic sizes, '
            'codes, vertices and positions: an error must be raised exactly '
            'when the sizes differ or a value is out of range (tides from a '
            'model, from series and maps, nodal modulations, harmonic '
            'analysis, constituents added to gridded and finite element '
            'models, meshes, axes, tables, names, formulae), and a rejected constituent '
            'must leave the model as it was.',
            technique='static analysis: interprocedural value numbering, '
            'conditions of the errors against a reference',
            assumes='sizes are compared for all integers; codes and vertices '
            'of two triangles stand for those of any number. Damaged '
            'states are checked by C13, all names by C01.')


def sym(n):
    return ('sym', n)


def symbols(name, n):
    return ('list', tuple(sym(f'{name}{i}') for i in range(n)))


def every(names, values):
    """Every way the sizes may be equal to each other and to constants."""
    for v in itertools.product(values, repeat=len(names)):
        yield {sym(k): x for k, x in zip(names, v)}
    for k in range(10, 40):
        for x in (2, 75, k):
            yield {sym(n): x if n == names[-1] else k for n in names}


def meshes(rows, count):
    r = random.Random(rows)
    big = 2**31 - 1
    for _ in range(count):
        n = r.choice((0, 1, 3, 4, 7, big))
        m = n if r.random() < 0.8 else r.choice((0, 1, 3, 4, 7, big))
        env = {sym('nlon'): n, sym('nlat'): m}
        for k in range(3 * rows):
            v = r.randint(0, max(n - 1, 0))
            if r.random() < 0.1:
                v = r.choice((-1, n, n - 1, m, m - 1, big, -big - 1, 0))
            env[sym(f'vertex{k}')] = v
        yield env


def elements(rows, width, count):
    r = random.Random(rows * 10 + width)
    big = 2**31 - 1
    for _ in range(count):
        top = r.choice((0, 1, 5, 20, big - 1))
        code = [r.randint(0, top) for _ in range(rows * width)]
        if r.random() < 0.5 and code:
            k = r.randrange(len(code))
            code[k] = r.choice((-1, big, big - 1, 0, -big - 1, top + 1))
        env = {sym(f'code{k}'): v for k, v in enumerate(code)}
        env[sym('n')] = max(code, default=0) + r.choice((1, 1, 1, 0, 2, -1))
        yield env


def run(c):
    c.rule('rejected', 'an error is raised exactly when the arguments do not '
           'fit together, and nothing has changed')
    F = c.spec('checks')
    num = T.num
    count = 400 if c.tier == 'quick' else 20000
    skip = lambda e, cc, st, fr: ('void', )
    jobs = []

    def add(p, oid, sample=None, **args):
        if sample is None:
            k = dict(lets=60)
        else:
            k = dict(sample=list(sample))
        jobs.append(lambda: c.pair(
            F, F.one('verif::probe_' + p), oid=oid, rule='rejected',
            args=args, models={'fes::detail::parallel_for': skip}, **k))

    for t in (0, 1, 2):
        add('tides', f'tides:{t}', every(['n0', 'n1', 'n2', 'n3'],
                                        (0, 1, 2, 3, 9)), threads=num(t))
    for k in (0, 1):
        add('series', f'series:{k}', every(
            ['n0', 'n1', 'n2'], (0, 1, 2, 3, 74, 75, 76)), kind=num(k))
        add('modulations', f'modulations:{k}', every(
            ['n0', 'n1'], (0, 1, 2, 3, 75)), kind=num(k))
        add('position', f'position:{k}', kind=num(k))
        for t in (0, 1):
            add('mapping', f'mapping:{k}:{t}', kind=num(k), threads=num(t))
        add('absent', f'absent:{k}', present=num(k))
    add('analysis', 'analysis', every(
        ['n', 'rows0', 'cols0', 'rows1', 'cols1'], (0, 1, 2, 3, 9)))
    for k in range(-1, 5):
        add('formulae', f'formulae:{k}', formulae=num(k))
    for t in ('double', 'float'):
        for k in (0, 1):
            add('grid_' + t, f'grid:{t}:{k}', known=num(k))
        for d in (1, 2):
            for rows in (1, 2, 3):
                add(f'lgp{d}_{t}', f'lgp{d}:{t}:{rows}',
                    elements(rows, 3 * d, count), rows=num(rows),
                    code=symbols('code', 3 * d * rows))
    for rows in (0, 1, 2, 3):
        add('mesh', f'mesh:{rows}', meshes(rows, count), rows=num(rows),
            vertex=symbols('vertex', 3 * rows))
    for k in range(4):
        add('name', f'name:{k}', kind=num(k))
        add('added', f'added:{k}', kind=num(k))
    A = c.spec('axis')
    for k in (0, 1):
        jobs.append(lambda k=k: c.pair(
            A, A.one('verif::probe_node'), oid=f'axis:node:{k}',
            rule='rejected', args=dict(circular=num(k)),
            sample=list(C15.lookups(k, 300))))
        for size in range(0, 5):
            jobs.append(lambda k=k, size=size: c.pair(
                A, A.one('verif::probe_build'), oid=f'axis:build:{size}:{k}',
                rule='rejected', args=dict(
                    n=num(size), circular=num(k), p=symbols('p', size)),
                sample=list(C15.points(size, k, count))))
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), len(jobs))
