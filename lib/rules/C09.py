import terms as T
from facts import AnalysisError
from threads import Threads, scoped

META = dict(explanation='Value numbering of parallel_for for every number of '
            'threads from 1 to 16 (quick) or 64 (thorough) and a symbolic '
            'number of elements (each remainder by the number of threads '
            'apart), and for every smaller number of elements; threads are '
            'run when they are created and when they are joined. The ranges '
            'given to the workers must partition the elements, every thread '
            'must be joined and every exception must come out; what the '
            'threads share is written under a lock.',
            technique='static analysis: value numbering with models of '
            'std::thread, typestate of the threads and lock-set analysis of '
            'what they share',
            assumes='std::thread, std::mutex and std::exception_ptr behave as '
            'the standard says; numbers of threads beyond those enumerated '
            'follow the same loop')

def cover(size, log):
    """The ranges must follow each other from 0 to the number of elements."""
    todo = [r for r in log if r[0] != r[1]]
    at = T.ZERO
    while todo:
        nxt = [r for r in todo if r[0] == at]
        if len(nxt) != 1:
            return ('elements from ' + T.show(at).replace('nat:', '') +
                    f' are given to {len(nxt)} workers')
        todo.remove(nxt[0])
        a, b = nxt[0]
        if T.cmp('<', a, b) != T.TRUE or T.cmp('<=', b, size) != T.TRUE:
            return 'a worker is given the range ' + T.show(a) + ' to ' + \
                T.show(b)
        at = b
    return None if at == size else 'elements from ' + T.show(at) + \
        ' are given to no worker'


def check(c, F, oid, size, threads, cpus=1, bad=()):
    fn = F.one('verif::probe_parallel')
    for late in (False, True):
        m = Threads(late, cpus, bad)
        e = c.engine(F, models=m.models())
        scoped(e, m)
        r = e.run(fn, args=dict(size=size, threads=T.num(threads)))
        for k in e.inlined:
            f = F.fn.get(k)
            if f and 'thread.hpp' in f['file']:
                c.saw(f)
        why = list(m.problems)
        if any(t[2] != 'joined' for t in m.threads):
            why.append('a thread has not ended when the function returns')
        g = T.lor(*[x for x, _, _ in r.throws]) if r.throws else T.FALSE
        if not (bad and not m.threads):
            x = cover(size, m.log)
            if x:
                why.append(x)
        if g != (T.TRUE if bad and bad[0] < len(m.log) else T.FALSE):
            why.append('the exception of a worker is lost' if bad else
                       'an exception is raised')
        unk = set(e.unknown) | e.opaque_seen
        if why:
            if unk:
                raise AnalysisError(f'{oid}: {why[0]}; not decidable: '
                                    f'{sorted(unk)[:4]}')
            c.fail(oid, 'partition', c.where_of(F, e), why[0] + (
                ', threads being run when they are joined' if late else ''))
            return
    c.ok(oid, 'partition', f'{len(m.log)} ranges, {len(m.threads)} threads')


def run(c):
    c.rule('partition', 'every element is given to one worker, every thread '
           'is joined, exceptions come out and shared memory is locked')
    F = c.spec('parallel')
    most = 16 if c.tier == 'quick' else 64
    q = T.mul(T.sym('nat:q'), T.ONE)
    jobs = []

    def add(*a, **k):
        jobs.append(lambda: check(c, F, *a, **k))
    for t in list(range(1, most + 1)) + [most + 1, 2 * most, 100]:
        rest = range(t) if t <= most else (0, 1, t // 2, t - 1)
        for r in rest:
            size = T.add(T.mul(T.num(t), T.add(q, T.ONE)), T.num(r))
            add(f'{t}:{t}q+{t + r}', size, t)
    for t in range(0, most + 2):
        for n in range(0, min(t, most) + 1):
            add(f'{t}:{n}', T.num(n), t)
    for cpus in (0, 1, 2, 3, 8):
        for n in (0, 1, 2, 7, 8, 9, 30):
            add(f'cpus {cpus}:{n}', T.num(n), 0, cpus=cpus)
    for n, t in ((1, 1), (5, 1), (2, 2), (4, 4), (9, 4), (3, 8)):
        for k in range(min(n, t)):
            add(f'raised by {k} of {t}:{n}', T.num(n), t, bad=(k, ))
        add(f'raised by all of {t}:{n}', T.num(n), t,
            bad=tuple(range(min(n, t))))
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), len(jobs))
