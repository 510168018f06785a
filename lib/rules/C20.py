import absint
import bindings as B
import eqv
import facts as FA
import terms as T
from facts import AnalysisError
from rules.C16 import QUALITY
from threads import Threads

META = dict(explanation='The module of the bindings is value numbered with '
            'stubs of pybind11: what it registers (classes and their bases, '
            'functions, names of the arguments and their defaults, '
            'enumerators) is compared with the documented interface of '
            'spec/bindings.cpp, and each registered callable is value '
            'numbered for arbitrary arguments, the functions of the library '
            'being uninterpreted: result, errors and objects afterwards must '
            'be those of the documented call. Where the lock of the '
            'interpreter is released no function of Python is called. The '
            'interpolation of arrays is compared element by element.',
            technique='static analysis: interprocedural value numbering '
            'against a reference, typestate of the lock of the interpreter',
            assumes='pybind11 (not installed here) converts arguments and '
            'results as documented; trampolines for classes derived in '
            'Python are not covered')

MODULE = ('arg', 'm')


def module():
    return {MODULE: ('agg', 'pybind11::module_', ('undef', 'm'),
                     (('path_', ('str', 'core')), ))}


def record(c, F, entry):
    b = B.Bindings()
    e = c.engine(F, models=b.models())
    e.opaque = B.Opaque()
    fn = F.one(entry)
    r = e.run(fn, store=module())
    if e.unknown or r.throws:
        raise AnalysisError(f'{entry}: {sorted(e.unknown)[:3]} '
                            f'{len(r.throws)} errors')
    for k in e.inlined:
        f = F.fn.get(k)
        if f and f['file'].startswith(FA.REPO + '/'):
            c.saw(f)
    b.watch(e)
    return b, B.Caller(F, b, e, r.store)


def where(F, rec):
    f = rec['f']
    if f[0] == 'lam':
        return f[1].rsplit(':', 1)[0].replace(FA.REPO + '/', '')
    fn = F.fn.get(f[1]) or {}
    return f"{fn.get('file', '').replace(FA.REPO + '/', '')}:" \
        f"{fn.get('line', '')} ({f[2]}), registered by {rec['fn']}:" \
        f"{rec['line']}"


def same(a, b):
    return eqv.equal(a, b, (), None)[:2]


def run(c):
    c.rule('registered', 'what the module offers is what is documented, with '
           'the documented arguments and defaults')
    c.rule('value', 'the callable is the documented call of the library')
    c.rule('lock', 'no function of Python is called while the lock of the '
           'interpreter is released')
    c.rule('array', 'an array of positions is interpolated element by element')
    F = FA.with_spec(c.facts(True), 'bindings', FA.STUBS)
    got, call = record(c, F, 'pybind11_init_core')
    ref, rcall = record(c, F, 'verif::reference')

    # -- names, arguments, defaults
    for k in sorted(set(got.classes) | set(ref.classes)):
        a, b = (x.get(k, '').replace('PyAbstractTidalModel<double>, ', '')
                .replace('PyAbstractTidalModel<float>, ', '')
                for x in (got.classes, ref.classes))
        if k not in ref.classes:
            continue
        c.need(a == b, f'class {k}', 'registered',
               'src/python/core', f'{k} is registered as {a or "nothing"}, '
               f'not as {b}')
    for k in sorted(ref.values):
        a, b = got.values.get(k, []), ref.values[k]
        c.need(len(a) >= 1 and all(x == b[0] for x in a),
               'value ' + '.'.join(k), 'registered', 'src/python/core',
               f'{".".join(k)} is {[T.show(x) for x in a]}, not '
               f'{T.show(b[0])}')
    en = F.enum.get('fes::Quality', {})
    c.need(all(en.get(k) == v for k, v in QUALITY.items()), 'quality',
           'registered', 'include/fes/abstract_tidal_model.hpp',
           f'the qualities are {en}: not the numbers of nodes')
    jobs = []
    lock = set()
    for k in sorted(ref.defs):
        name = '.'.join((k[0], k[2])) + ('=' if k[1] == 'set' else '')
        rs, gs = ref.defs[k], got.defs.get(k)
        if not gs:
            c.fail(name, 'registered', 'src/python/core',
                   f'{name} is not registered')
            continue
        if len(gs) != len(rs):
            c.fail(name, 'registered', where(F, gs[0]),
                   f'{len(gs)} functions are registered as {name}, not '
                   f'{len(rs)}')
            continue
        for i, (g, r) in enumerate(zip(gs, rs)):
            oid = name + (f'[{i}]' if len(gs) > 1 else '')
            an, bn = [x[0] for x in g['args']], [x[0] for x in r['args']]
            if not c.need(an == bn, oid + ':arguments', 'registered',
                          where(F, g), f'the arguments of {oid} are {an}, '
                          f'not {bn}'):
                continue
            for (n, x), (_, y) in zip(g['args'], r['args']):
                c.need(normal(x) == normal(y), f'{oid}:{n}', 'registered',
                       where(F, g), f'the default of {n} is '
                       f'{T.show(x)[:80] if x else "missing"}, not '
                       f'{T.show(y)[:80] if y else "none"}')
            keep = [x for x in r['extra'] if 'keep_alive' in x]
            c.need(all(x in g['extra'] for x in keep), oid + ':kept',
                   'registered', where(F, g), f'{oid}: {keep} is missing')
            jobs.append((oid, g, r))
    c.floor('functions registered', len(jobs), 120)
    todo = []
    for oid, g, r in jobs:
        todo.append(lambda oid=oid, g=g, r=r: compare(
            c, F, call, rcall, got, oid, g, r))
    g = got.defs[('core.AbstractTidalModelComplex128', 'def', 'interpolate')]
    f = g[0]['f']
    for n, m, t, late in ((1, 1, 1, 0), (2, 2, 1, 0), (3, 3, 1, 0),
                          (2, 2, 2, 0), (2, 2, 2, 1), (3, 3, 2, 1),
                          (2, 1, 1, 0), (1, 2, 1, 0)):
        todo.append(lambda n=n, m=m, t=t, late=late: c.pair(
            F, F.one('verif::probe_interpolation'), rule='array',
            oid=f'interpolate:{n}:{m}:{t}:{late}',
            models=Threads(bool(late), alone=False, cpus=2).models(),
            args=dict(f=f, n=T.num(n), m=T.num(m), threads=T.num(t))))
    c.batch(todo)
    c.floor('obligations', len(c.obligations), 500)


def normal(v):
    return ('none', ) if v is not None and v[0] == 'glob' and \
        v[1] in ('boost::none', ) else v


def compare(c, F, call, rcall, got, oid, g, r):
    if 'some_interpolation' in str(r['f']):
        return      # compared element by element
    types = ' '.join(call.params(g['f']) + rcall.params(r['f']))
    for variant in ('none', 'some') if 'boost::optional' in types else ('', ):
        o = oid + (':' + variant if variant else '')
        n0 = len(call.e.unknown)
        a = call.run(g, '', variant)
        touched = list(got.touched)
        b = rcall.run(r, '', variant)
        unk = list(call.e.unknown)[n0:]
        c.need(not touched, o + ':lock', 'lock', where(F, g),
               f'{oid} calls {touched[:3]} while the lock of the interpreter '
               'is released')
        ok, why = same(a[2], b[2])
        bad = []
        if not ok:
            bad.append('raises an error ' + why)
        if a[2] != T.TRUE:
            x, y = a[0], b[0]
            ok, why = same(x, y)
            if not ok:
                bad.append('the result ' + why)
            if len(a[1]) != len(b[1]):
                bad.append(f'takes {len(a[1])} arguments, not {len(b[1])}')
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                ok, why = same(x, y)
                if not ok:
                    bad.append(f'argument {i} afterwards {why}')
        if bad and unk:
            raise AnalysisError(f'{o}: {bad[0][:300]}; {unk[:3]}')
        if bad:
            c.fail(o, 'value', where(F, g), f'{oid}: ' + '; '.join(bad)[:900])
        else:
            c.ok(o, 'value', 'equal value numbers')
