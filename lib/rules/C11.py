import terms as T
from threads import Threads

META = dict(explanation='Value numbering of the evaluations over arrays (tides '
            'from a model, tides from series of dates, from maps, nodal '
            'modulations) for one, two and three symbolic elements and '
            'several numbers of threads, run when they are created or when '
            'they are joined: the shape of the result is that of the inputs '
            'and every element equals the one the same function gives for '
            'arrays of one element.',
            technique='static analysis: interprocedural value numbering, '
            'elements of an array against the element alone, with models of '
            'std::thread',
            assumes='dates differ from each other, or the leap seconds of '
            'equal dates are equal; arrays of more than three elements '
            'follow the same loops')


def sym(n):
    return ('sym', n)


def differ(n):
    big = ('limit', 'double', 'max')
    e = [sym(f'epoch{i}') for i in range(n)]

    def far(a, b):
        return T.lnot(T.cmp('<=', T.app('abs', T.sub(a, b)), T.ZERO))
    return tuple(far(x, big) for x in e) + tuple(
        far(e[i], e[j]) for i in range(n) for j in range(n) if i != j)


def models(late):
    skip = lambda e, c, st, fr: ('void', )
    return {**Threads(late, alone=False, cpus=2).models(),
            'verif::keep': skip, 'verif::finish': skip}


def run(c):
    c.rule('element', 'each element of a result is what it is for arrays of '
           'this element alone')
    F = c.spec('arrays')
    quick = c.tier == 'quick'
    jobs = []

    def add(probe, late=False, **a):
        name = ','.join(f'{k}={v}' for k, v in a.items())
        jobs.append(lambda: c.pair(
            F, F.one('verif::probe_' + probe), rule='element',
            oid=f'{probe}:{name}:{"late" if late else "early"}',
            assume=differ(a['n']), models=models(late),
            args={k: T.num(v) for k, v in a.items()}))
    for n, threads in ((1, 1), (2, 2), (3, 1), (3, 2), (3, 3), (3, 0)):
        for late in (False, True):
            if late and threads == 1:
                continue
            add('mapping', late, n=n, threads=threads, formulae=n % 3)
            if n < 3 or not quick:
                add('tides', late, n=n, threads=threads, formulae=threads % 3)
    add('tides', n=3, threads=1, formulae=0)
    add('tides', True, n=3, threads=3, formulae=1)
    for n in (1, 3):
        for f in range(3):
            add('series', n=n, formulae=f)
            for which in (0, 1):
                add('modulations', n=n, which=which, formulae=f)
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), 3 * len(jobs))
