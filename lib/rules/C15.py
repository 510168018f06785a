import random
from fractions import Fraction as Q

import terms as T

META = dict(explanation='Value numbering of the lookups, bounds and '
            'construction of Axis for symbolic axes and coordinates against '
            'their definition; the value numbers are compared in canonical '
            'form and, where they differ, under random interpretations drawn '
            'so that nodes, mid-points, both ends, the closing cell, other '
            'turns and undefined coordinates all occur.')

NAN = float('nan')


def sym(n):
    return ('sym', n)


def axis(r, circular, tag=''):
    size = r.choice((2, 3, 4, 5, 8, 9, 10))
    if circular:
        step = Q(360, size)
        start = Q(r.choice((0, -180, 0, -90, 10, 180))) + r.choice(
            (Q(0), step / 2, Q(1, 8)))
    else:
        step = r.choice((Q(1, 4), Q(1, 2), Q(1), Q(3), Q(10)))
        start = Q(r.randint(-8, 8)) * r.choice((Q(1, 4), 1, 10))
    if r.random() < 0.5:
        step = -step
    return dict([(sym('start' + tag), start), (sym('step' + tag), step),
                 (sym('size' + tag), size)])


def lookups(circular, n):
    r = random.Random(15)
    for i in range(n):
        env = axis(r, circular)
        start, step, size = env.values()
        if i % 29 == 0:
            x = NAN
        else:
            q = Q(r.randint(-3, 4 * size + 3)) / 4 if r.random() < 0.8 else \
                Q(r.randint(-300, 100 * size + 300), 97)
            x = start + q * step
            if r.random() < 0.5:
                x += 360 * r.randint(-2, 2)
        env[sym('coordinate')] = x
        env[sym('index')] = r.randint(-2, size + 2)
        yield env


def points(n, circular, count):
    r = random.Random(n)
    for i in range(count):
        step = r.choice((Q(360, n) if n else Q(1), Q(1, 4), Q(3), Q(1, 10**7),
                         Q(10), Q(0)))
        step *= r.choice((1, 1, -1))
        start = Q(r.choice((0, -180, 10, 350, 170)))
        p = [start + k * step for k in range(n)]
        if circular and r.random() < 0.7:
            p = [(x + 180) % 360 - 180 if r.random() < 0.97 else x for x in p]
        if n and r.random() < 0.4:
            k = r.randrange(n)
            p[k] += r.choice((Q(1, 10**8), Q(1, 10**5), -step, step / 2,
                              Q(1, 10**6)))
        env = {('at', sym('p'), T.num(k)): x for k, x in enumerate(p)}
        env.update({sym(f'p{k}'): x for k, x in enumerate(p)})
        env[sym('epsilon')] = r.choice((Q(1, 10**6), Q(1, 10), Q(30)))
        yield env


def equalities(count):
    r = random.Random(3)
    for i in range(count):
        a = axis(r, False, '0')
        b = {sym(k[1][:-1] + '1'): v for k, v in a.items()}
        env = dict(a)
        for k, v in b.items():
            env[k] = v + r.choice((0, 0, 0, 1)) if 'step' not in k[1] else \
                v * r.choice((1, 1, 1, 2, -1))
        yield env


def run(c):
    c.rule('lookup', 'the index is that of the nearest node, the pair that of '
           'the cell containing the coordinate')
    c.rule('definition', 'bounds, increment, size, nodes and equality describe '
           'the points of the axis')
    c.rule('construction', 'an axis is made of evenly spaced, strictly '
           'monotonic points, unwrapped when circular, or an error is raised')
    F = c.spec('axis')
    n = 600 if c.tier == 'quick' else 20000
    jobs = []

    def pair(name, oid, rule, args, sample):
        jobs.append(lambda: c.pair(F, F.one('verif::probe_' + name), oid=oid,
                                   rule=rule, args=args,
                                   sample=list(sample)))

    for k in (0, 1):
        A = dict(circular=T.num(k))
        for b in (0, 1):
            pair('index', f'index:{k}:{b}', 'lookup',
                 dict(A, bounded=T.num(b)), lookups(k, n))
        for p in ('unbounded', 'pair'):
            pair(p, f'{p}:{k}', 'lookup', A, lookups(k, n))
        for p in ('bounds', 'node'):
            pair(p, f'{p}:{k}', 'definition', A, lookups(k, 300))
    for k0 in (0, 1):
        for k1 in (0, 1):
            pair('equality', f'equality:{k0}:{k1}', 'definition',
                 dict(c0=T.num(k0), c1=T.num(k1)), equalities(400))
    for size in range(0, 7 if c.tier == 'quick' else 10):
        for k in (0, 1):
            pair('build', f'build:{size}:{k}', 'construction',
                 dict(n=T.num(size), circular=T.num(k), p=(
                     'list', tuple(sym(f'p{i}') for i in range(size)))),
                 points(size, k, n))
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), 100)
