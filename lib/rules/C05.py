import terms as T
META = dict(explanation='Value numbering of Table::compute_nodal_corrections '
            'on complete, partial and copied tables, after corrections for '
            'other angles and for arbitrary tides and flags: v, u, f, vu of '
            'every wave must be the value of a new wave for the current '
            'angles, and nothing else may change. Angles are symbolic.')


def run(c):
    c.rule('phase', 'v, u (with the terms of L2 and M13) and the phase modulo '
           'one turn have the value numbers of their definition')
    c.rule('table', 'each wave of the table holds the corrections of the '
           'current angles')
    c.rule('frame', 'the tide, flags and definition of each wave are unchanged')
    F = c.spec('wave')
    jobs = []

    def pair(*a, **k):
        jobs.append(lambda: c.pair(F, *a, **k))

    n = F.one('verif::probe_phase')
    for i in range(75):
        pair(n, args={'id': T.num(i)}, oid=f'phase:{i}', rule='phase')
    for p in ('table', 'sparse', 'copy'):
        pair(F.one('verif::probe_' + p), rule='table')
    pair(F.one('verif::probe_rest'), rule='frame')
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), 75 * (4 + 3 * 4 + 7))
