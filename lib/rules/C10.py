import json

import terms as T
from effects import Kept
from facts import AnalysisError
from threads import Threads, conflicts, scoped
from rules import C11, C17, C26

META = dict(explanation='Effects of the evaluations, read off their value '
            'numbering: nothing they write (tides from a model, from series '
            'and from maps, nodal modulations, interpolation of gridded and '
            'finite element models, search of a mesh) belongs to the model, '
            'to the table, to the inputs or to anything these own; no thread '
            'of a parallel evaluation writes to memory another one uses; a '
            'copied wave table shares nothing with the original; no variable '
            'of static storage of the library is written.',
            technique='static analysis: interprocedural effect analysis over '
            'the value numbering (ownership of the memory written), pairwise '
            'conflicts of the accesses of the threads',
            assumes='evaluations of two and three elements by two and three '
            'threads stand for all; a grid of any size and a mesh of a few '
            'triangles stand for any')
FLAGS = {'writes': 'the evaluation only reads the model, the table and the '
         'inputs', 'race': 'memory written by a thread is used by no other '
         'one', 'copies': 'a copied table is independent of the original',
         'statics': 'no variable of static storage is written'}


def effects(c, F, probe, oid, args, models=None, late=None):
    k = Kept()
    m = Threads(bool(late), cpus=2, alone=False)
    e = c.engine(F, lets=60, models={**m.models(), **(models or {}), **k.models()})
    scoped(e, m)
    k.watch(e)
    e.run(F.one('verif::probe_' + probe), args=args)
    where = c.where_of(F, e)
    for f in list(e.inlined):
        if f in F.fn and F.fn[f]['file'].startswith('/repo'):
            c.saw(F.fn[f])
    unk = list(e.unknown)
    if not k.calls or not k.size:
        raise AnalysisError(f'{oid}: the evaluation is not reached')
    why = [(oid + ':writes', 'writes', x) for x in k.problems]
    if late is not None:
        if len(m.threads) < 2:
            raise AnalysisError(f'{oid}: the threads are not seen')
        for root, s, t in conflicts(m)[:3]:
            why.append((oid + ':race', 'race', 'two threads use the same '
                        f'{root[2] if len(root) > 2 else root[1]}, and one '
                        'writes it'))
        why += [(oid + ':race', 'race', x) for x in m.problems]
    if why and unk:
        raise AnalysisError(f'{oid}: {why[0][2]}; not decidable: {unk[:4]}')
    for x in why:
        c.fail(x[0], x[1], where, x[2])
    if not any(x[1] == 'writes' for x in why):
        c.ok(oid + ':writes', 'writes', f'{k.size} objects only read')
    if late is not None and not any(x[1] == 'race' for x in why):
        n = sum(len(x) for x in m.access)
        c.ok(oid + ':race', 'race', f'{n} accesses of {len(m.threads)} threads')


READS = {'operator[]', 'begin', 'end', 'cbegin', 'cend', 'at', 'find', 'size',
         'empty', 'data', 'count', 'lock', 'unlock'}
LOCKS = ('std::mutex', 'std::once_flag', 'std::recursive_mutex',
         'std::shared_mutex')


def statics(c, F):
    """Variables of static storage that are not constants, and what is done
    with them."""
    names = {}
    for (tu, d), g in F.globals.items():
        if '/repo' in g['file'] or g['file'].startswith(c_repo()):
            t = g['t']
            if not g['const'] and not (t.startswith('const ') and
                                       '*' not in t) and t not in LOCKS \
                    and 'atomic' not in t:
                names[(tu, d)] = g
    n = 0
    for f in F.fn.values():
        if not f.get('body') or not f['file'].startswith(c_repo()):
            continue
        n += 1
        for d in written(f['body']):
            g = names.get((f['tu'], d))
            if g is not None:
                c.fail(f'static:{g["n"]}', 'statics',
                       f'{f["file"]}:{f["line"]} ({f["n"]})',
                       f'writes {g["n"]}, which every call and every thread '
                       'shares')
    c.ok('static', 'statics', f'{len(F.globals)} variables of static storage, '
         f'{n} functions')
    c.floor('functions searched for writes to static storage', n, 300)


def c_repo():
    import facts
    return facts.REPO


def base(x):
    """Variable an lvalue expression belongs to."""
    while isinstance(x, dict):
        if x.get('k') == 'ref':
            return x.get('d')
        nxt = x.get('o') if isinstance(x.get('o'), dict) else None
        if nxt is None and isinstance(x.get('e'), dict):
            nxt = x['e']
        if nxt is None and isinstance(x.get('a'), list) and x['a']:
            nxt = x['a'][0]
        if nxt is None and isinstance(x.get('b'), dict):
            nxt = x['b']
        x = nxt
    return None


def written(x):
    out = []
    if isinstance(x, dict):
        k, op = x.get('k'), str(x.get('op', ''))
        if k in ('assign', 'bin', 'un', 'compound', 'op') and (
                op in ('++', '--') or (op.endswith('=') and op not in (
                    '==', '!=', '<=', '>='))) or k == 'assign':
            for key in ('a', 'l_', 'lhs', 'e', 'o'):
                y = x.get(key)
                y = y[0] if isinstance(y, list) and y else y
                if isinstance(y, dict):
                    d = base(y)
                    if d is not None:
                        out.append(d)
                    break
        if k and 'call' in k and isinstance(x.get('o'), dict):
            short = str(x.get('n', '')).split('::')[-1]
            if not x.get('const') and short not in READS:
                d = base(x['o'])
                if d is not None:
                    out.append(d)
        for y in x.values():
            out += written(y)
    elif isinstance(x, list):
        for y in x:
            out += written(y)
    return out


def run(c):
    for k, v in FLAGS.items():
        c.rule(k, v)
    quick = c.tier == 'quick'
    jobs = []
    F = c.spec('arrays')

    def add(probe, late=None, **a):
        name = ','.join(f'{k}={v}' for k, v in a.items())
        jobs.append(lambda: effects(
            c, F, probe, f'{probe}:{name}' + (
                '' if late is None else ':late' if late else ':early'),
            {k: T.num(v) for k, v in a.items()}, late=late))
    for n, t in ((2, 2), ) + (() if quick else ((3, 2), (3, 3))):
        for late in (False, True):
            add('tides', late, n=n, threads=t, formulae=n % 3)
    for n, t in ((2, 2), (3, 2), (3, 3)):
        for late in (False, True):
            add('mapping', late, n=n, threads=t, formulae=t % 3)
    add('tides', n=1, threads=1, formulae=2)
    add('mapping', n=2, threads=1, formulae=2)
    add('series', n=2, formulae=1)
    add('modulations', n=2, which=0, formulae=1)
    G = c.spec('cartesian')
    for row in (0, 1):
        for p in ('double', 'float'):
            jobs.append(lambda row=row, p=p: effects(
                c, G, p, f'cartesian:{p}:{row}',
                dict(row_major=T.num(row), circular=T.num(row))))
    L = c.spec('lgp')
    for p in ('double1', 'double2', 'float1', 'float2'):
        jobs.append(lambda p=p: effects(
            c, L, p, f'lgp:{p}', dict(n=T.num(C17.NODES)), C17.MODELS))
    M = c.spec('mesh')
    for k in (0, 1):
        jobs.append(lambda k=k: effects(c, M, 'search', f'mesh:{k}',
                                        dict(mesh=T.num(k)), C26.MODELS))
    D = c.spec('copies')
    for p in ('original', 'copy', 'changed'):
        for k in (0, 1):
            a = dict(kind=T.num(k))
            if p != 'changed':
                jobs.append(lambda p=p, k=k, a=a: effects(
                    c, D, p, f'{p}:{k}', a))
            skip = lambda e, c, st, fr: ('void', )
            jobs.append(lambda p=p, k=k, a=a: c.pair(
                D, D.one('verif::probe_' + p), oid=f'{p}:{k}', rule='copies',
                args=a, models={'verif::keep': skip, 'verif::finish': skip}))
    jobs.append(lambda: statics(c, c.facts()))
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), len(jobs))
