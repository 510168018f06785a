import terms as T
META = dict(explanation='The names (constituents::name, parse, known), the '
            'waves (Table::wave_factory) and the tables built from all or '
            'part of the constituents, value numbered and compared with the '
            'documented list of spec/constituent.cpp. parse is decided for '
            'every string of each length up to one more than the longest name '
            '(symbolic characters); tables for fixed selections looked up in '
            'every way.',
            assumes='Longer strings are assumed to be rejected like those of '
            'the greatest length analysed; the selections are samples of the '
            '2^75 possible ones.')


def run(c):
    c.rule('name', 'name, wave and identifier belong to the same constituent')
    c.rule('parse', 'for every string of the given length, parse returns the '
           'constituent of that name in any letter case, else raises')
    c.rule('table', 'a table holds each selected constituent under its own '
           'name, identifier and position, and nothing else')
    F = c.spec('constituent')
    names = [s[1] for s in c.global_value(F, 'verif::kNames')]
    c.floor('documented names', len(set(names)), 75)
    jobs = []

    def pair(*a, **k):
        jobs.append(lambda: c.pair(F, *a, **k))

    enum = F.enum['fes::Constituent']
    for i, n in enumerate(names):
        c.need(enum.get('k' + n) == i, f'enum:{n}', 'name',
               'include/fes/constituent.hpp (fes::Constituent)',
               f'identifier k{n} is {enum.get("k" + n)} and not {i}')
    c.need(len(enum) == len(names), 'enum:size', 'name',
           'include/fes/constituent.hpp (fes::Constituent)',
           f'{len(enum)} identifiers for {len(names)} names')
    for i in range(76):
        pair(F.one('verif::probe_name'), args={'id': T.num(i)},
               oid=f'name:{i}', rule='name')
    pair(F.one('verif::probe_known'), rule='name')
    longest = max(map(len, names))
    for n in range(longest + 2):
        s = ('list', tuple(('sym', f'c{i}') for i in range(n)))
        pair(F.one('verif::probe_parse'), args={'name': s},
               oid=f'parse:{n} characters', rule='parse')

    def ids(sel):
        return ('list', tuple(T.num(i) for i in sel))

    def strs(sel):
        return ('list', tuple(('str', x) for x in sel))

    def mixed(sel):
        out = []
        for k, i in enumerate(sel):
            n = names[i]
            out.append((n.lower(), n.upper(), n)[k % 3])
        return out

    sels = [[74], list(range(73, -1, -2)), list(range(75))]
    if c.tier == 'thorough':
        sels += [[i] for i in range(74)] + [list(range(s, 75, 3))
                                            for s in range(3)]
    pn, pi, pc, pb = (F.one('verif::probe_' + x) for x in
                      ('names', 'idents', 'copies', 'beyond'))
    pair(pn, args={'names': strs([])}, oid='table:empty', rule='table')
    for k, sel in enumerate(sels):
        tag = f'{len(sel)} from {sel[0]}'
        pair(pn, args={'names': strs(mixed(sel + sel[:1]))},
               oid=f'table:names {tag}', rule='table')
        pair(pi, args={'ids': ids(sel)}, oid=f'table:ids {tag}',
               rule='table')
        if k < 6:
            pair(pc, args={'ids': ids(sel)}, oid=f'table:copy {tag}',
                   rule='table')
            pair(pb, args={'ids': ids(sel), 'index': T.num(len(sel))},
                   oid=f'table:beyond {tag}', rule='table')
    for bad in ('', 'M', 'M22', 'kM2', 'M2 ', ' M2', 'MM11', 'Sigma'):
        pair(pn, args={'names': strs(['M2', bad])},
               oid=f'table:rejects "{bad}"', rule='table')
        pair(F.one('verif::probe_unknown'), args={'name': ('str', bad)},
               oid=f'find:rejects "{bad}"', rule='table')
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), 75 * 4 + 4 * 400)
