"""Equality of gated value numbers.

Both terms are Shannon-expanded over their branch conditions (conditions that
are decided by the ones already assumed, by interval reasoning on the same
linear form, are not split); at every leaf the two values must have the same
canonical form, or - failing that - the same value number under random
interpretation."""
from fractions import Fraction

import terms as T
from absint import decide, linform
from terms import lnot

ATOM = ('lt', 'le', 'eq', 'isnan', 'isfinite')


class TooBig(Exception):
    pass


def boolpos(t):
    """Atomic conditions in boolean position below t, innermost first."""
    out = []
    seen = set()

    def go(x, isbool):
        if not isinstance(x, tuple) or not x:
            return
        if (x, isbool) in seen:
            return
        seen.add((x, isbool))
        k = x[0]
        if k == 'poly':
            for m, c in x[1]:
                for a, e in m:
                    go(a, False)
            return
        if k == 'ite':
            go(x[1], True)
            go(x[2], isbool)
            go(x[3], isbool)
            return
        if k in ('and', 'or', 'not'):
            for y in x[1:]:
                go(y, True)
            return
        for y in x[1:]:
            if isinstance(y, tuple):
                go(y, False)
        if k in ATOM or isbool:
            if k not in ('bool', ) and x not in out:
                out.append(x)

    go(t, False)
    return out


def cofactor(t, pc):
    pcs = set(pc)

    def f(y):
        if not y or y[0] in ('poly', 'ite', 'and', 'or', 'sym', 'obj', 'str',
                             'bool', 'const', 'fld'):
            if y and y[0] in ('fld', 'sym', 'obj'):
                if y in pcs:
                    return T.TRUE
                if ('not', y) in pcs:
                    return T.FALSE
            return None
        if y in pcs:
            return T.TRUE
        if ('not', y) in pcs:
            return T.FALSE
        if y[0] in ATOM and len(y) == 3:
            r = decide(pc, y)
            if r is not None:
                return ('bool', r)
        return None

    return T.subst(t, f)


def hasite(t):
    return any(x and x[0] in ('ite', ) for x in T.walk(t))


def simple(x):
    """An atomic condition without a nested condition."""
    return not any(y and y is not x and y[0] in ('ite', 'and', 'or', 'not') + ATOM
                   for y in T.walk(x) if isinstance(y, tuple) and y is not x)


def summands(a, b):
    """The two sums as sums of terms that have no condition in common."""
    if len(boolpos(('pair', a, b))) < 6 or not (T.is_poly(a) and
                                                T.is_poly(b)):
        return []
    pa, pb = T.poly(a), T.poly(b)
    groups = []
    for k, p, q in ((1, pa, pb), (2, pb, pa)):
        for m, c in p.items():
            if q.get(m) == c:
                continue
            t = T.norm(T._p({m: c}))
            at = set(boolpos(t))
            new = [set(at), [], []]
            new[k].append(t)
            for g in [g for g in groups if g[0] & at or not (g[0] or at)]:
                new[0] |= g[0]
                new[1] += g[1]
                new[2] += g[2]
                groups.remove(g)
            groups.append(new)
    return [(T.add(T.ZERO, *g[1]), T.add(T.ZERO, *g[2])) for g in groups]


def equal(a, b, assume=(), domain=None, limit=4000, trials=24, rtol=1e-12,
          sample=None):
    """(verdict, explanation, leaves)"""
    state = {'leaves': 0}
    if sample is not None and a != b:
        # interpretations that reach every combination of the conditions
        used = 0
        table, seen = {}, {}
        keep = (a, b, assume)
        a, b = T.intern(a, table, seen), T.intern(b, table, seen)
        assume = [T.intern(l, table, seen) for l in assume]
        for i, env in enumerate(sample):
            it = T.Interp(i, domain, {id(T.intern(k, table, seen)): v
                                      for k, v in env.items()
                                      if k[0] != 'fn'})
            it.fns = {k[1]: v for k, v in env.items() if k[0] == 'fn'}
            it.ids = True
            keep += tuple(env)
            try:
                if not all(it.truth(l) for l in assume):
                    continue
                x, y = it.ev(a), it.ev(b)
            except (T.Undefined, OverflowError):
                continue
            used += 1
            if not T.close(x, y, rtol):
                at = ', '.join(f'{T.show(k)}={float(v):.10g}'
                               for k, v in env.items() if k[0] != 'fn')
                return False, f'for {at}: {value(x)} instead of ' \
                              f'{value(y)} [{T.show(a)[:200]}] ' \
                              f'{sorted(it.opaque)}', used
        if used < 20:
            return False, 'no common domain: ' + T.show(a)[:200] + \
                ' <> ' + T.show(b)[:200], used
        return True, '', used

    def go(x, y, pc):
        if x == y:
            state['leaves'] += 1
            return None
        ats = boolpos(('pair', x, y))
        ats = [q for q in ats if q not in pc and lnot(q) not in pc and
               not any(z and z[0] == 'remquoq' for z in T.walk(q))]
        pick = None
        for q in ats:
            if simple(q):
                pick = q
                break
        if pick is None and ats:
            pick = ats[0]
        if pick is None:
            state['leaves'] += 1
            if state['leaves'] > limit:
                raise TooBig()
            ok, how = T.same(x, y, domain, trials, rtol)
            if ok:
                return None
            return (pc, x, y)
        for lit in (pick, lnot(pick)):
            npc = pc + (lit, )
            if contradictory(pc, lit):
                continue
            r = go(cofactor(x, npc), cofactor(y, npc), npc)
            if r is not None:
                return r
        return None

    pc = tuple(assume)
    a, b = (cofactor(a, pc), cofactor(b, pc)) if pc else (a, b)
    parts = summands(a, b)
    if len(parts) > 1:
        # sums whose summands depend on disjoint conditions: equal when the
        # corresponding summands are
        for x, y in parts:
            try:
                if go(x, y, pc) is not None:
                    break
            except TooBig:
                break
        else:
            return True, '', state['leaves']
        state['leaves'] = 0
    try:
        r = go(a, b, pc)
    except TooBig:
        ok, how = T.same(a, b, domain, max(trials, 200), rtol)
        if ok:
            raise
        r = (pc, a, b)
    if r is None:
        return True, '', state['leaves']
    pc, x, y = r
    cond = ' and '.join(T.show(l) for l in pc[-6:]) or 'always'
    return False, f'when {cond[:500]}: {T.show(x)[:300]} instead of ' \
                  f'{T.show(y)[:300]}', state['leaves']


def value(x):
    return f'{float(x):.10g}' if isinstance(x, (int, Fraction)) else str(x)


def contradictory(pc, lit):
    if lnot(lit) in pc:
        return True
    ng = lit[0] == 'not'
    q = lit[1] if ng else lit
    if q[0] in ('lt', 'le', 'eq') and len(q) == 3:
        r = decide(pc, q)
        if r is not None and r == ng:
            return True
    return False
