import terms as T

META = dict(explanation='Value numbering of evaluate_tide on two positions for '
            'a model whose values and quality are arbitrary functions of the '
            'position, both tide types, the three sets of formulae, and eight '
            'configurations in which every constituent is in turn provided, '
            'computed elsewhere, excluded, and any combination. Dates, leap '
            'seconds and positions are symbolic.',
            assumes='the two dates differ; the nodal corrections, the '
            'inference and the equilibrium tide are proved by C02 to C06 and '
            'C08')


def sym(n):
    return ('sym', n)


def far(a, b):
    return T.lnot(T.cmp('<=', T.app('abs', T.sub(a, b)), T.ZERO))


def run(c):
    c.rule('value', 'height, long-period height and quality of each position '
           'are the sum of the contributions of its own date and values')
    F = c.spec('tide')
    big = ('limit', 'double', 'max')
    e0, e1 = sym('epoch0'), sym('epoch1')
    assume = (far(e0, big), far(e1, big), far(e1, e0))
    probe = F.one('verif::probe_series')
    cases = [(s, 1 + (s + s // 2) % 2, s % 3) for s in range(8)]
    if c.tier == 'thorough':
        cases = [(s, t, f) for s in range(8) for t in (1, 2) for f in range(3)]
    c.batch([lambda s=s, t=t, f=f: c.pair(
        F, probe, oid=f'tide:{s}:{t}:{f}', assume=assume,
        args=dict(step=T.num(s), type=T.num(t), formulae=T.num(f)))
        for s, t, f in cases])
    c.floor('obligations', len(c.obligations), 6 * len(cases))
