import terms as T
META = dict(explanation='Value numbering of LongPeriodEquilibrium (constructor, '
            'removal, evaluation) against the 123 published spectral lines, '
            'with symbolic astronomic angles, latitude and dynamic flags of '
            'all 75 waves: complete expansion, after a removal, after a '
            'previous evaluation and after two removals.')


def degrees(t, rnd):
    if t[0] == 'sym' and t[1] in ('latitude', 'elsewhere'):
        return rnd.uniform(-400, 400)


def sind(e, call, st, fr):
    x = e.ev(call['a'][0], st, fr)
    return T.app('sin', T.div(T.mul(T.app('atan2', T.ZERO, T.num(-1)), x),
                              T.num(180)))


def run(c):
    c.rule('value', 'the height has the value number of the sum of the '
           'published lines that are not removed')
    c.rule('sine', 'the sine of an angle in degrees is computed in every '
           'quadrant')
    F = c.spec('lpe')
    jobs = []
    jobs.append(lambda: c.pair(F, F.one('verif::probe_sine'), rule='sine',
                               domain=degrees))
    for p in ('height', 'complete', 'repeated', 'twice'):
        # the sine is proved apart
        jobs.append(lambda p=p: c.pair(
            F, F.one('verif::probe_' + p),
            models={'fes::detail::math::sind': sind}))
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), 5)
