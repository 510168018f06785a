import streams
import terms as T
from facts import AnalysisError
from rules import C17, C26

META = dict(explanation='Value numbering of the reading of states that have '
            'been damaged: every truncation, and every field replaced by '
            'values out of its range (sizes that are negative, zero, one too '
            'small or too large, or whose product overflows; unknown types '
            'and constituents; undefined numbers). The reader must raise an '
            'error or give an object whose sizes and indices agree, read '
            'nothing beyond the state and allocate no more coefficients than '
            'the state has bytes.',
            technique='static analysis: interprocedural value numbering of '
            'the reader on symbolic streams of fields',
            assumes='the states are those of one axis, one mesh, and models '
            'of one constituent, each altered at one place or at two '
            'consecutive ones')

WIDE = (-2**63, -1, 0, 1, 2, 2**31, 2**32, 2**40, 2**61, 2**63 - 1)
NARROW = (-2**31, -1, 0, 1, 2, 3, 100, 2**31 - 1)
BYTE = (0, 1, 2, 3, 100, 255)


class Damage:
    """State of an object of a class, and what reading it when damaged
    gives."""
    def __init__(self, c, F, name):
        self.c, self.F, self.name = c, F, name
        self.models = {**(C26.MODELS if name == 'mesh' else C17.MODELS),
                       **streams.MODELS,
                       'verif::node_re': lambda e, c, st, fr: T.num(7),
                       'verif::node_im': lambda e, c, st, fr: T.num(3)}
        self.probe = F.one('verif::damaged_' + name)
        e, r = self.run(0, 0, 0)
        self.fields = e.fields
        if r.throws or T.const(r.value) != 1:
            c.fail(f'{name}:intact', 'sound', c.where_of(F, e),
                   'the state that has not been altered is refused')

    def run(self, kind, at, value):
        return self.c.run(self.F, self.probe, args=dict(
            kind=T.num(kind), at=T.num(at), value=T.num(value)),
            models=self.models)

    def cases(self, all_):
        at = 0
        cuts = set()
        for i, (v, n, t) in enumerate(self.fields):
            cuts |= set(range(at, at + n)) if all_ else {at, at + n - 1}
            at += n
            if t == 'double':
                yield 5, i, 0
                yield 2, i, 0
            elif t == 'bool':
                yield 2, i, 0
                yield 2, i, 1
            elif t == 'int':
                old = T.const(v)
                some = WIDE if n == 8 else NARROW if n == 4 else BYTE
                extra = () if old is None else (int(old) - 1, int(old) + 1)
                for value in sorted(set(some + extra)):
                    if value != old and (n != 1 or value >= 0):
                        yield 2, i, value
                if n == 8 and i + 1 < len(self.fields) and \
                        self.fields[i + 1][1:] == (8, 'int'):
                    for value in (2**32, 2**33, -1, 2**62):
                        yield 3, i, value
        self.size = at
        for k in sorted(cuts):
            yield 1, k, 0

    def check(self, kind, at, value):
        name = {1: 'cut', 2: 'field', 3: 'fields', 5: 'undefined'}[kind]
        oid = f'{self.name}:{name}:{at}' + (f':{value}' if kind < 4 and
                                            kind > 1 else '')
        try:
            e, r = self.run(kind, at, value)
        except AnalysisError as ex:
            raise AnalysisError(f'{oid}: {ex}')
        total = sum(f[1] for f in self.fields)
        bad = None
        if getattr(e, 'overrun', False):
            bad = 'memory outside the state, or outside the object, is used'
        if e.overflow:
            bad = f'the computation of a size overflows: {e.overflow[0][1]}'
        for ev in e.events:
            if ev.kind == 'eigen':
                d = [T.const(x) for x in ev.data[1]]
                size = 1
                for x in d:
                    size = None if x is None or size is None else size * x
                if size is None or min(d) < 0 or size > total:
                    bad = 'a matrix gets sizes that have not been checked: ' \
                        + ' x '.join(map(str, d))
        g = T.lor(*[x for x, _, _ in r.throws]) if r.throws else T.FALSE
        if bad is None and g != T.TRUE:
            if kind == 1:
                bad = 'the truncated state is accepted'
            elif g != T.FALSE or T.const(r.value) is None:
                if e.unknown:
                    raise AnalysisError(f'{oid}: {e.unknown[:3]}')
                bad = 'whether the state is accepted is not determined'
            elif T.const(r.value) != 1:
                bad = 'the object read is inconsistent'
        if bad:
            self.c.fail(oid, 'sound', self.c.where_of(self.F, e), bad)
            return False
        self.c.ok(oid, 'sound', 'an error' if g == T.TRUE else 'a sound '
                  'object')
        return True


NAMES = ('axis', 'mesh', 'grid', 'gridf', 'lgp1', 'lgp1f', 'lgp2', 'lgp2f')


def run(c):
    c.rule('sound', 'a damaged state is refused or gives a consistent object; '
           'nothing outside of it is read')
    F = c.spec('state')
    jobs = []
    for s in NAMES:
        d = Damage(c, F, s)
        cases = list(d.cases(c.tier != 'quick'))
        for i in range(0, len(cases), 40):
            def job(d=d, part=cases[i:i + 40]):
                bad = 0
                for k in part:
                    bad += not d.check(*k)
                    if bad > 3:
                        break
            jobs.append(job)
        c.floor(f'alterations of the state of {s}', len(cases),
                10 if s == 'axis' else 100)
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), 900)
