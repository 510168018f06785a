META = dict(explanation='Global value numbering (gated, field sensitive, '
            'interprocedural) of every nodal factor of angle::Astronomic '
            'against the reference formulae of spec/astro.cpp: one obligation '
            'per factor, decided on value numbers, no execution.')


def run(c):
    c.rule('value', 'the value number of each nodal factor equals the value '
           'number of the reference formula for all angles')
    c.pairs('astro', only=lambda n: n == 'factors', floor=1)
    c.floor('nodal factors compared', len(c.obligations), 22)
