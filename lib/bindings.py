"""What the module of the bindings registers: models of the stubs of pybind11
(tool/stubs), and the values of the registered callables."""
import absint
import terms as T
from absint import AnalysisError, VOID
from facts import REPO

# memory of arrays that is read without the interpreter
PLAIN = ('unchecked_reference', 'gil_scoped', 'arg', 'arg_v')


class Opaque:
    """Functions of the library are not followed."""

    def __init__(self, extra=()):
        self.extra = set(extra)

    def __contains__(self, n):
        return (n.startswith('fes::') and not n.startswith('fes::python::') and
                '(lambda' not in n and not n.startswith('fes::Settings::') and
                not n.startswith('fes::geometry::Point')) or n in self.extra


class Bindings:
    def __init__(self):
        self.defs = {}      # (path, kind, name) -> [record]
        self.values = {}    # (path, name) -> value
        self.classes = {}   # path -> C++ type and bases
        self.held = True
        self.touched = []

    def bind(self, e, c, st, fr):
        v = [e.ev(a, st, fr) for a in c['a']]
        path, kind, name = (x[1] if x[0] == 'str' else None
                            for x in (e.text(y, st) for y in v[:3]))
        if None in (path, kind, name):
            raise AnalysisError('name of a binding not known: '
                                f'{[T.show(x)[:80] for x in v[:3]]}')
        args, extra = [], []
        for a, x in zip(c['a'][4:], v[4:]):
            t = absint.bare(a['t'])
            if t == 'pybind11::arg':
                args.append((e.select(x, ('f', 'name')), None))
            elif t.startswith('pybind11::arg_v<'):
                args.append((e.select(x, ('f', 'name')),
                             e.select(x, ('f', 'value'))))
            elif t.startswith('pybind11::'):
                extra.append(t)
        args = [(n[1] if n[0] == 'str' else '?', d) for n, d in args]
        self.defs.setdefault((path, kind, name), []).append(dict(
            f=v[3], args=args, member='::*)' in c['a'][3].get('t', ''), extra=extra, line=c['l'],
            fn=fr.fn.get('n') if fr.fn else ''))
        return VOID

    def bind_value(self, e, c, st, fr):
        v = [e.ev(a, st, fr) for a in c['a']]
        if v[0][0] != 'str' or v[1][0] != 'str':
            raise AnalysisError('name of a value not known')
        self.values.setdefault((v[0][1], v[1][1]), []).append(v[2])
        return VOID

    def bind_class(self, e, c, st, fr):
        v = e.ev(c['a'][0], st, fr)
        self.classes[v[1]] = c['a'][1].get('t', '')
        return VOID

    def gil(self, e, c, st, fr):
        v = e.ev(c['a'][0], st, fr)
        self.held = v == T.TRUE
        return VOID

    def octets(self, e, c, st, fr):
        """PyBytes_AsStringAndSize."""
        if not self.held:
            self.touched.append(f'PyBytes_AsStringAndSize (line {c["l"]})')
        v = [e.ev(a, st, fr) for a in c['a']]
        for p, n in ((v[1], 'octets'), (v[2], 'length')):
            if p[0] != 'ptr':
                raise AnalysisError('result of PyBytes_AsStringAndSize lost')
            e.write(st, e.deref(p), ('call', n, v[0]))
        return ('call', 'no octets', v[0])

    def watch(self, e):
        """Notes the functions of Python called without the lock."""
        inner = e.call

        def call(c, st, fr, want_ref=False):
            n = c.get('n') or ''
            if not self.held and (n.startswith(('pybind11::', 'Py', '_Py'))) \
                    and not any(p in n for p in PLAIN):
                self.touched.append(f'{n} (line {c.get("l")})')
            return inner(c, st, fr, want_ref)
        e.call = call

    def models(self):
        return {'verif::bind': self.bind, 'verif::bind_value': self.bind_value,
                'verif::bind_class': self.bind_class, 'verif::gil': self.gil,
                'PyBytes_AsStringAndSize': self.octets}


def split_types(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


def signature(key):
    """Types of the parameters and constness of a function, from its key."""
    t = key.split('#', 1)[1]
    depth, end = 0, len(t)
    for i in range(len(t) - 1, -1, -1):
        if t[i] == ')':
            if depth == 0:
                end = i
            depth += 1
        elif t[i] == '(':
            depth -= 1
            if depth == 0:
                return split_types(t[i + 1:end]), 'const' in t[end:]
    raise AnalysisError('signature not understood: ' + key)


class Caller:
    """Values of the registered callables for arbitrary arguments."""

    def __init__(self, F, recorder, engine, store):
        self.F, self.b, self.e = F, recorder, engine
        self.base = store

    def params(self, f):
        e = self.e
        if f[0] == 'lam':
            le = e.closures[f[1]][0]
            if le.get('params') is None:
                raise AnalysisError('generic closure registered')
            return [p['t'] for p in le['params']]
        if f[0] != 'fn':
            raise AnalysisError('callable not understood: ' + T.show(f)[:100])
        return signature(f[1])[0]

    def run(self, rec, kind, variant):
        """(result, objects afterwards, conditions of the errors)."""
        e, f = self.e, rec['f']
        st = absint.State(dict(self.base), ())
        fr = absint.Frame({'n': '<entry>', 'file': REPO, 'ret': '', 'key': ''},
                          (('none', ), ()))
        types = self.params(f)
        member = f[0] == 'fn' and rec['member']
        n = len(types) + member
        roots = [('arg', f'a{i}') for i in range(n)]
        for i, r in enumerate(roots):
            st.store[r] = ('sym', f'a{i}')
        given = []
        for r, t in zip(roots[member:], types):
            if 'boost::optional' in t:
                st.store[r] = ('none', ) if variant == 'none' else \
                    ('some', ('sym', 'given ' + r[1]))
            t = t.rstrip()
            if t.endswith('&'):
                given.append(('path', (r, ())))
            elif t.endswith('*') or t.endswith('*const') or \
                    t.endswith('* const'):
                given.append(('val', ('ptr', r, ())))
            else:
                given.append(('val', st.store[r]))
        self.b.held = not any('gil_scoped_release' in x for x in rec['extra'])
        self.b.touched = []
        self.b.now = rec
        call = dict(l=rec['line'], k='call', n='', a=[])
        if f[0] == 'lam':
            v = e.apply_lambda(f, given, st, fr, call)
        else:
            fn = self.F.fn.get(f[1])
            if fn is not None and fn.get('body') and f[2] not in e.opaque:
                v = e.inline(fn, (roots[0], ()) if member else None, given, st,
                             fr, call)
            else:
                v = self.direct(f, (roots[0], ()) if member else None, given,
                                types, st)
        if v is None:
            raise AnalysisError('callable not followed')
        held = self.b.held
        if v[0] == 'ref':
            v = e.read(st, e.deref(v[1]))
        throws = T.lor(*[T.land(*x[1]) for x in fr.exits
                         if x[0] == 'throw']) if fr.exits else T.FALSE
        return (self.plain(v, st), [self.plain(e.read(st, (r, ())), st)
                                    for r in roots], throws, held)

    def direct(self, f, this, given, types, st):
        """A function of the library registered as it is."""
        e = self.e
        vals = [e.read(st, v) if k == 'path' else v for k, v in given]
        ov = e.read(st, this) if this is not None else None
        r = ('call', f[2]) + ((ov, ) if ov is not None else ()) + tuple(vals)
        for i, ((k, p), t) in enumerate(zip(given, types)):
            if k == 'path' and not t.startswith('const ') and \
                    t.endswith('&') and not t.endswith('&&'):
                e.write(st, p, ('out', i, r))
        if this is not None and not signature(f[1])[1]:
            e.write(st, this, ('after', r))
        if f[1].split('#', 1)[1].split(' (')[0].rstrip().endswith('&'):
            return ('ref', ('pcall', ) + r[1:])
        return r

    def plain(self, v, st, depth=0):
        """The value with what was allocated in it instead of its address."""
        if not isinstance(v, tuple) or depth > 40:
            return v
        if len(v) >= 3 and v[0] == 'ptr' and v[1][0] == 'loc':
            return ('to', self.plain(self.e.read(st, (v[1], v[2])), st,
                                     depth + 1))
        return tuple(self.plain(x, st, depth + 1) for x in v)
