META = dict(explanation='Table::admittance value numbered on a complete table '
            'with symbolic complex values, inference flags and dynamic flags '
            'for all 75 waves: every wave afterwards must hold the documented '
            'combination of the major constituents or its own value, all other '
            'properties unchanged.')


def run(c):
    c.rule('value', 'the value number of each constituent after inference '
           'equals the documented combination; nothing else changes')
    c.pairs('admittance', floor=3)
    c.floor('obligations', len(c.obligations), 75 * (12 + 12 + 1))
