META = dict(explanation='Global value numbering of the construction and the '
            'update of angle::Astronomic, for each choice of formulae, for a '
            'second update of the same object and for a copy, against the '
            'reference polynomials of spec/astro.cpp; dates and leap seconds '
            'are symbolic inputs, no execution.')


def run(c):
    c.rule('value', 'each angle after the update has the value number of the '
           'reference expression of the date and leap seconds alone')
    c.pairs('astro', only=lambda n: n != 'factors', floor=7)
    c.floor('angles compared', len(c.obligations), 7 * 13)
