"""Obligations over the Python files of the package (see pyvn.py)."""
import ast
import os

import facts as FA
import pyvn as P
from facts import AnalysisError

PKG = os.path.join(FA.REPO, 'src/python/pyfes')
RAISES = {'core.constituents.parse': 'ValueError', '_load_model': 'TypeError',
          '_read_leap_second_file': ('RuntimeError', 'URLError')}


class Pair:
    def __init__(self, c, name, spec, opaque=()):
        self.c, self.opaque = c, list(opaque)
        self.impl = P.Module(os.path.join(PKG, name + '.py'))
        self.ref = P.Module(os.path.join(FA.SPEC, spec + '.py'))
        self.name = name
        self.lines = set()
        self.paths = 0

    def where(self, node):
        return f'src/python/pyfes/{self.name}.py:{node.lineno}'

    def equal(self, qual, depth, ignore=(), raises=(), also=(),
              **kw):
        c = self.c
        op = [x for x in self.opaque if x != qual] + list(also)
        ra = dict(RAISES, **dict(raises))
        a = P.Target(self.impl, qual, op, ra)
        b = P.Target(self.ref, qual, op, ra)
        c.saw(dict(file=self.impl.path, line=a.node.lineno, n=qual))
        oid = f'{self.name}:{qual}'
        if a.params() != b.params():
            c.fail(oid, 'signature', self.where(a.node),
                   f'{qual} takes {a.params()}, not {b.params()}')
            return
        sa, sb = a.signature(), b.signature()
        c.need(sa == sb, oid + ':signature', 'signature', self.where(a.node),
               f'{qual}: parameters and defaults are '
               f'{[(n, P.show(d)) for n, _, d in sa]}, not '
               f'{[(n, P.show(d)) for n, _, d in sb]}')
        ignore = tuple(ignore)
        n, diff, seen = P.compare(a, b, depth, ignore, **kw)
        self.paths += n
        self.lines |= seen
        if diff is None:
            c.ok(oid, 'value', f'{n} paths, {len(seen)} statements')
            return
        kn, x, y, ea, eb = diff
        when = ', '.join(
            f"{k[0]} {' '.join(P.show(z) for z in k[1:])} = {v}"
            for k, v in kn.items())
        if x != y:
            what = f'{outcome(x)}, not {outcome(y)}'
        else:
            r = [k for k in set(ea) | set(eb) if ea.get(k) != eb.get(k)][0]
            what = f'on {P.show(r)}: {calls(ea.get(r))}, not ' \
                f'{calls(eb.get(r))}'
        c.fail(oid, 'value', self.where(a.node),
               f'{qual} {what}; when {when}'[:1500])

    def classes(self):
        """Bases, fields, enumerators and what is overridden."""
        c = self.c
        for n, k in self.ref.classes.items():
            i = self.impl.classes.get(n)
            if i is None:
                raise AnalysisError(f'{self.name}: no class {n}')
            oid = f'{self.name}:class {n}'
            w = self.where(i.node)
            c.need(i.outer() == k.outer(), oid + ':base', 'class', w,
                   f'{n} derives from {i.outer()}, not {k.outer()}')
            fi, fk = self.fields(self.impl, i), self.fields(self.ref, k)
            bad = {x for x in set(fi) | set(fk) if fi.get(x) != fk.get(x)}
            c.need(not bad, oid + ':fields', 'class', w,
                   f'{n}: ' + ', '.join(
                       f'{x} is {P.show(fi.get(x))}, not '
                       f'{P.show(fk.get(x))}' for x in sorted(bad)))
            if k.enum():
                c.need(i.enum(), oid + ':enum', 'class', w,
                       f'{n} is not an enumeration')
            c.need(i.dataclass() == k.dataclass(), oid + ':dataclass',
                   'class', w, f'{n} is not a dataclass')
            if k.outer() and k.outer().startswith('core.'):
                more = [m for m in i.methods if m not in k.methods and m not
                        in ('__repr__', '__str__') and (
                            m.startswith('__') or not m.startswith('_'))]
                c.need(not more, oid + ':overridden', 'class', w,
                       f'{n} redefines {more} of the compiled class')

    @staticmethod
    def fields(mod, k):
        it = P.Interp(mod, P.Atoms((), 1))
        r = {n: it.term(it.ev(v, {})) if v is not None else None
             for n, v in k.all_fields()}
        if k.enum():
            for n, v in k.values.items():
                r[n] = it.term(it.ev(v, {}))
        return r

    def names(self, table):
        """What the names of the package stand for."""
        for n, src in table.items():
            got = self.impl.imports.get(n)
            self.c.need(got == src, f'{self.name}:name {n}', 'signature',
                        f'src/python/pyfes/{self.name}.py',
                        f'{n} is {got}, not {src}')


def outcome(x):
    return ('returns ' if x[0] == 'return' else 'raises ') + P.show(x[1])


def calls(x):
    return 'nothing' if not x else '; '.join(P.show(y) for y in x)
