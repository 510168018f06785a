import terms as T
META = dict(explanation='The definition (Doodson numbers, frequency, period, '
            'tidal type, inference flag, printed Doodson number) and the nodal '
            'corrections v, u, f of each of the 75 constituents built by '
            'wave::Table::wave_factory, value numbered for symbolic '
            'astronomical angles and compared with the documented row of '
            'spec/waves.hpp. One obligation per constituent and quantity.')


def run(c):
    c.rule('definition', 'the constants of the wave equal its documented row')
    c.rule('nodal', 'v, u and f have the value numbers of the documented '
           'combination of the astronomical angles and factors')
    F = c.spec('wave')
    jobs = []

    def pair(*a, **k):
        jobs.append(lambda: c.pair(F, *a, **k))

    d = F.one('verif::probe_def')
    n = F.one('verif::probe_nodal')
    for i in range(75):
        pair(d, args={'id': T.num(i)}, oid=f'def:{i}', rule='definition')
        pair(n, args={'id': T.num(i)}, oid=f'nodal:{i}', rule='nodal')
    c.batch(jobs)
    c.floor('constituents compared', len(F.enum['fes::Constituent']), 75)
    c.floor('obligations', len(c.obligations), 75 * 15)
