"""Value numbering of Python functions.

A function of the package and its reference are interpreted over terms: the
parameters and everything that is imported are symbols, calls are
uninterpreted, and each condition that is not decided by the terms is an atom
shared by both sides.  For every assignment of the atoms met, both must give
the same term, raise the same class of exception, and apply the same calls to
the same objects.  A symbolic iterable is unrolled for the lengths 0 to DEPTH.
Nothing of the package is imported or executed."""
import ast
import fractions
import os

from facts import AnalysisError

EXCLUSIVE = {'dict', 'list', 'str', 'tuple', 'int', 'float', 'set', 'bytes',
             'datetime.datetime', 'numpy.datetime64', 'numpy.ndarray'}
#: parameters of what the package calls, with their defaults
SIGS = {
    'numpy.ma.filled': ['a', ('fill_value', None)],
    'numpy.array': ['object', ('dtype', None)],
    'numpy.asarray': ['a', ('dtype', None)],
    'numpy.searchsorted': ['a', 'v', ('side', 'left'), ('sorter', None)],
    'numpy.allclose': ['a', 'b', ('rtol', 1e-5), ('atol', 1e-8)],
    'netCDF4.Dataset': ['filename', ('mode', 'r')],
    'numpy.datetime64': ['value', ('unit', None)],
    'core.Axis': ['points', ('epsilon', 1e-6), ('is_circular', False)],
    'core.mesh.Index': ['lon', 'lat', 'triangles'],
    'core.evaluate_tide': ['tidal_model', 'date', 'leap_seconds', 'longitude',
                           'latitude', ('settings', None),
                           ('num_threads', 0)],
    'core.WaveTable.compute_nodal_modulations': [
        'self', 'dates', 'leap_seconds', ('formulae', 'kSchuremanOrder1')],
    'core.WaveTable.tide_from_tide_series': [
        'self', 'dates', 'leap_seconds', 'wave',
        ('formulae', 'kSchuremanOrder1')],
    'core.WaveTable.harmonic_analysis': ['h', 'f', 'vu'],
    'core.constituents.parse': ['name'],
    'open': ['file', ('mode', 'r')],
    'yaml.load': ['stream', 'Loader'],
    're.compile': ['pattern', ('flags', 0)],
    'enumerate': ['iterable', ('start', 0)],
}
for _n in ('CartesianComplex64', 'CartesianComplex128'):
    SIGS['core.tidal_model.' + _n] = [
        'lon', 'lat', 'tide_type', ('longitude_major', True)]
for _n in ('LGP1', 'LGP2'):
    for _t in ('Complex64', 'Complex128'):
        SIGS[f'core.tidal_model.{_n}{_t}'] = [
            'index', 'codes', 'tide_type', ('max_distance', 0)]
#: other names of the same function
ALIAS = {'numpy.deg2rad': 'numpy.radians', 'numpy.ma.MaskedArray.filled':
         'numpy.ma.filled', 'np': 'numpy'}
#: base classes of exceptions
BASES = {'KeyError': {'LookupError'}, 'IndexError': {'LookupError'},
         'URLError': {'OSError', 'IOError', 'EnvironmentError'},
         'FileNotFoundError': {'OSError', 'IOError', 'EnvironmentError'}}
METHODS = {'numpy.ravel': 'ravel', 'numpy.any': 'any', 'numpy.all': 'all'}
IGNORED = ('warnings.warn', 'logging.', 'print')
DISCARDED = ('encoding', 'timeout', 'errors')


def C(v):
    return ('c', type(v).__name__, v)


SELF = ('p', 'self')
NONE, TRUE, FALSE = C(None), C(True), C(False)


def is_c(t):
    return isinstance(t, tuple) and t and t[0] == 'c'


class Raise(Exception):
    def __init__(self, cls, term=None):
        self.cls, self.term = cls, term


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Skip(Exception):
    """A path whose assumptions contradict each other."""


class Obj:
    """A list, tuple, set or dict of known shape."""

    def __init__(self, kind, items):
        self.kind, self.items = kind, items


class Record:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields


class Func:
    def __init__(self, node, env, mod, cls=None, self_=None, name=None):
        self.node, self.env, self.mod = node, env, mod
        self.cls, self.self_, self.name = cls, self_, name


class Seq:
    """A lazily transformed iterable: get(i) gives its i-th element."""

    def __init__(self, base, get):
        self.base, self.get = base, get


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Cls:
    def __init__(self, mod, node, env=None):
        self.mod, self.node, self.name, self.env = mod, node, node.name, env
        self.methods, self.fields, self.values = {}, [], {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = s
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target,
                                                             ast.Name):
                self.fields.append((s.target.id, s.value))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.values[t.id] = s.value
        self.bases = [ast.unparse(b) for b in node.bases]

    def dataclass(self):
        return any('dataclass' in ast.unparse(d)
                   for d in self.node.decorator_list)

    def enum(self):
        return any(b.split('.')[-1] in ('Enum', 'IntEnum', 'StrEnum')
                   for b in self.bases)

    def find(self, name):
        if name in self.methods:
            return self, self.methods[name]
        for b in self.bases:
            k = self.mod.classes.get(b)
            if k:
                r = k.find(name)
                if r:
                    return r
        return None

    def all_fields(self):
        r = []
        for b in self.bases:
            k = self.mod.classes.get(b)
            if k:
                r += k.all_fields()
        own = {n for n, _ in self.fields}
        return [f for f in r if f[0] not in own] + self.fields

    def static(self, name):
        f = self.find(name)
        return f and any(ast.unparse(d) == 'staticmethod'
                         for d in f[1].decorator_list)

    def prop(self, name):
        f = self.find(name)
        return f and any(ast.unparse(d).split('.')[-1] in (
            'property', 'cached_property') for d in f[1].decorator_list)

    def outer(self):
        """The base of the compiled module."""
        for b in self.bases:
            k = self.mod.classes.get(b)
            if k is None:
                return b
            r = k.outer()
            if r:
                return r
        return None


class Module:
    def __init__(self, path):
        self.path = path
        try:
            self.tree = ast.parse(open(path, encoding='utf-8').read())
        except (OSError, SyntaxError) as e:
            raise AnalysisError(f'{path}: {e}') from None
        self.imports, self.functions, self.classes = {}, {}, {}
        self.globals = {}
        self.scan(self.tree.body)

    def scan(self, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        n = a.name.split('.')[0]
                        self.imports[n] = n
            elif isinstance(s, ast.ImportFrom):
                m = (s.module or '')
                for a in s.names:
                    self.imports[a.asname or a.name] = \
                        f'{m}.{a.name}' if m else a.name
            elif isinstance(s, ast.FunctionDef):
                self.functions[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(self, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.globals[t.id] = s.value
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name) and s.value is not None:
                    self.globals[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self.scan(s.body)

    def find(self, qual):
        p = qual.split('.')
        if len(p) == 1:
            if p[0] not in self.functions:
                raise AnalysisError(f'{self.path}: no function {qual}')
            return None, self.functions[p[0]]
        k = self.classes.get(p[0])
        f = k and k.find(p[1])
        if not f:
            raise AnalysisError(f'{self.path}: no method {qual}')
        return k, f[1]


class Atoms:
    """The assumptions of a path, shared by both sides."""

    def __init__(self, schedule, depth, objects=(), assume=()):
        self.schedule = list(schedule)
        self.made = []
        self.known = {}
        self.depth = depth
        self.used = 0
        self.lets = ({}, [])
        self.objects = set(objects)
        self.assume = assume

    def pick(self, key, options):
        if key in self.known:
            return self.known[key]
        options = list(options)
        if not options:
            raise Skip()
        if len(options) == 1:
            self.known[key] = options[0]
            return options[0]
        i = self.used
        self.used += 1
        k = self.schedule[i] if i < len(self.schedule) else 0
        self.made.append((k, len(options)))
        if i > 400:
            raise AnalysisError('too many decisions on one path')
        self.known[key] = options[k]
        return options[k]

    # -- atoms -----------------------------------------------------------
    def truth(self, t):
        if t in self.objects:
            return not self.none(t)
        key = ('truth', t)
        if key in self.known:
            return self.known[key]
        if ('none', t) in self.known and self.known[('none', t)]:
            return False
        if ('len', t) in self.known:
            return self.known[('len', t)] > 0
        return self.pick(key, (True, False))

    def none(self, t):
        if self.known.get(('truth', t)) is True:
            return False
        if self.known.get(('len', t)):
            return False
        return self.pick(('none', t), (True, False))

    def length(self, t):
        opts = range(self.depth + 1)
        tr = self.known.get(('truth', t))
        if tr is True:
            opts = range(1, self.depth + 1)
        elif tr is False:
            opts = (0, )
        return self.pick(('len', t), opts)

    def eq(self, a, b):
        if repr(b) < repr(a):
            a, b = b, a
        if ('eq', a, b) in self.known:
            return self.known[('eq', a, b)]
        for x, y in ((a, b), (b, a)):
            if constant(y):
                for k, v in self.known.items():
                    if k[0] == 'eq' and v and x in k[1:]:
                        o = k[2] if k[1] == x else k[1]
                        if constant(o) and o != y:
                            return False
        opts = (False, True)
        for x, values in self.assume:
            # x is one of these constants
            if x in (a, b):
                o = b if x == a else a
                if o not in values:
                    return False
                if all(self.known.get(('eq', ) + tuple(sorted(
                        (x, y), key=repr))) is False
                        for y in values if y != o):
                    opts = (True, )
        return self.pick(('eq', a, b), opts)

    def isinstance(self, t, cls):
        key = ('isinstance', t, cls)
        if key in self.known:
            return self.known[key]
        if cls in EXCLUSIVE:
            for k, v in self.known.items():
                if k[0] == 'isinstance' and k[1] == t and v \
                        and k[2] in EXCLUSIVE and k[2] != cls:
                    return False
        return self.pick(key, (True, False))


def constant(t):
    if is_c(t):
        return True
    return isinstance(t, tuple) and (
        t[0] == 'v' and '.' in t[1] or t[0] in ('enum', ))


def dotted(t):
    return t[1] if isinstance(t, tuple) and t[0] == 'v' else None


# -- numbers ---------------------------------------------------------------
def num(t):
    return is_c(t) and t[1] in ('int', 'float', 'complex')


def poly(t):
    """A term as {monomial: coefficient}."""
    if num(t):
        return {(): t[2]} if t[2] else {}
    if isinstance(t, tuple) and t[0] == 'poly':
        return dict(t[1])
    return {(t, ): 1}


def unpoly(p):
    p = {k: v for k, v in p.items() if v}
    if not p:
        return C(0)
    if len(p) == 1:
        (k, v), = p.items()
        if k == ():
            return C(v)
        if len(k) == 1 and v == 1:
            return k[0]
    return ('poly', tuple(sorted(p.items(), key=repr)))


def padd(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return r


def pmul(a, b):
    r = {}
    for k, v in a.items():
        for q, w in b.items():
            m = tuple(sorted(k + q, key=repr))
            r[m] = r.get(m, 0) + v * w
    return r


def numeric(t):
    if num(t):
        return True
    if not isinstance(t, tuple):
        return False
    if t[0] == 'poly':
        return True
    return t[0] == 'call' and (dotted(t[1]) or '').startswith('numpy.') \
        or t[0] == 'call' and dotted(t[1]) in ('len', 'int', 'float')


def binop(op, a, b):
    if is_c(a) and is_c(b):
        try:
            v = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y,
                 'Mult': lambda x, y: x * y, 'Div': lambda x, y: x / y,
                 'FloorDiv': lambda x, y: x // y, 'Mod': lambda x, y: x % y,
                 'Pow': lambda x, y: x ** y, 'BitOr': lambda x, y: x | y,
                 'BitAnd': lambda x, y: x & y}[op](a[2], b[2])
            return C(v)
        except (KeyError, TypeError, ZeroDivisionError):
            pass
    if op == 'Add' and (numeric(a) or numeric(b)):
        return unpoly(padd(poly(a), poly(b)))
    if op == 'Add':
        parts = (a[1:] if isinstance(a, tuple) and a[0] == 'cat' else (a, )) \
            + (b[1:] if isinstance(b, tuple) and b[0] == 'cat' else (b, ))
        return ('cat', ) + parts
    if op == 'Sub':
        return unpoly(padd(poly(a), poly(b), -1))
    if op == 'Mult':
        return unpoly(pmul(poly(a), poly(b)))
    if op == 'Div' and num(b) and b[2]:
        return unpoly(pmul(poly(a), {(): 1 / b[2]}))
    return ('bin', op, a, b)


CMP = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>',
       'GtE': '>=', 'Is': 'is', 'IsNot': 'is not', 'In': 'in',
       'NotIn': 'not in'}


class Interp:
    def __init__(self, mod, atoms, opaque=(), raises=None, stats=None):
        self.mod, self.atoms = mod, atoms
        self.opaque, self.raises = set(opaque), raises or {}
        self.events = []
        self.overlay = {}
        self.depth = 0
        self.seen = set() if stats is None else stats
        self.selfcls = {}
        self.handling = None

    # -- terms -----------------------------------------------------------
    def term(self, v):
        """The value as a term."""
        if isinstance(v, Obj):
            if v.kind == 'dict':
                return ('dict', tuple(sorted(
                    ((self.term(k), self.term(x)) for k, x in v.items),
                    key=repr)))
            k = tuple(self.term(x) for x in v.items)
            if v.kind == 'set':
                k = tuple(sorted(k, key=repr))
            return (v.kind, k)
        if isinstance(v, Record):
            return ('record', v.cls.name, tuple(
                (n, self.term(x)) for n, x in v.fields.items()))
        if isinstance(v, Seq):
            return ('list', tuple(self.term(x) for x in self.elements(v)))
        if isinstance(v, Func):
            return ('v', v.name or 'lambda')
        if isinstance(v, Cls):
            return ('v', v.name)
        if isinstance(v, Super):
            return ('super', v.cls.name)
        return v

    def final(self, v):
        """What the caller sees: stores into a symbolic container show."""
        if isinstance(v, tuple) and any(k[0] == v for k in self.overlay):
            st = {k[1]: x for k, x in self.overlay.items() if k[0] == v}
            n = self.atoms.known.get(('len', v))
            if n is not None and len(st) == n:
                if all(k == ('item', v, i) for i, k in enumerate(st)):
                    return ('dict', tuple(sorted(
                        ((k, self.term(x)) for k, x in st.items()),
                        key=repr)))
                if all(k == C(i) for i, k in enumerate(st)):
                    return ('list', tuple(self.term(x) for x in st.values()))
            return ('stored', v, tuple(sorted(
                ((k, self.term(x)) for k, x in st.items()), key=repr)))
        if isinstance(v, tuple) and self.atoms.known.get(('len', v)) == 0:
            if self.atoms.known.get(('isinstance', v, 'dict')):
                return ('dict', ())
            if self.atoms.known.get(('isinstance', v, 'list')):
                return ('list', ())
        return self.settle(self.term(v))

    def settle(self, t):
        """Comparisons decided on this path are constants."""
        if not isinstance(t, tuple):
            return t
        if t and t[0] == 'cmp':
            k = self.decided(t)
            if k is not None:
                return C(k)
        if t and t[0] == 'c':
            return t
        return tuple(self.settle(x) for x in t)

    def decided(self, t):
        _, op, a, b = t
        kn = self.atoms.known
        if op in ('==', '!='):
            x, y = sorted((a, b), key=repr)
            v = kn.get(('eq', x, y))
        elif op == '<':
            v = kn.get(('lt', a, b))
        elif op == '<=':
            v = kn.get(('lt', b, a))
            v = None if v is None else not v
            return v
        else:
            return None
        return v if v is None or op != '!=' else not v

    # -- truth -----------------------------------------------------------
    def truth(self, v):
        if isinstance(v, Obj):
            return bool(v.items)
        if isinstance(v, (Record, Func, Cls)):
            return True
        if isinstance(v, Seq):
            return self.atoms.length(v.base) > 0 if v.base else True
        if is_c(v):
            return bool(v[2])
        if v[0] == 'cmp':
            return self.compare(v[1], v[2], v[3])
        if v[0] == 'not':
            return not self.truth(v[1])
        if v[0] == 'enum':
            return True
        if v[0] == 'call':
            d = dotted(v[1])
            if d == 'len':
                return self.truth(v[2][0])
            if d == 'bool':
                return self.truth(v[2][0])
        return self.atoms.truth(v)

    def is_none(self, v):
        if v == NONE:
            return True
        if isinstance(v, (Obj, Record, Func, Cls, Seq)) or is_c(v):
            return False
        if v[0] in ('cmp', 'poly', 'cat', 'fstr', 'enum', 'not', 'list',
                    'exc'):
            return False
        if v[0] == 'v' and '.' in v[1] and v[1].split('.')[-1][:1].isupper():
            return False
        if v[0] == 'call':
            d = dotted(v[1]) or ''
            n = d.split('.')[-1]
            if n[:1].isupper() or d.startswith('numpy.'):
                return False
            if v[1][0] == 'attr' and v[1][2] in ('match', 'search',
                                                 'fullmatch'):
                return not self.atoms.truth(v)
        return self.atoms.none(v)

    def compare(self, op, a, b):
        """A comparison as a truth value."""
        if op in ('!=', 'is not', 'not in'):
            if op == '!=' and isinstance(a, Record) and \
                    a.cls.find('__ne__'):
                return self.truth(self.method(a, '__ne__', [b], {}))
            return not self.compare({'!=': '==', 'is not': 'is',
                                     'not in': 'in'}[op], a, b)
        if op == 'is':
            if b == NONE:
                return self.is_none(a)
            if a == NONE:
                return self.is_none(b)
            op = '=='
        if op == 'in':
            return self.contains(a, b)
        if isinstance(a, Record) and op == '==' and a.cls.find('__eq__'):
            return self.truth(self.method(a, '__eq__', [b], {}))
        if isinstance(a, Record) and isinstance(b, Record) and op == '==':
            return a.cls.name == b.cls.name and all(
                self.compare('==', x, y)
                for x, y in zip(a.fields.values(), b.fields.values()))
        if isinstance(a, Obj) and isinstance(b, Obj) and op == '==' and \
                a.kind == b.kind and a.kind in ('list', 'tuple'):
            return len(a.items) == len(b.items) and all(
                self.compare('==', x, y) for x, y in zip(a.items, b.items))
        a, b = self.term(a), self.term(b)
        if a == b and op in ('==', '<='):
            return True
        if a == b and op == '<':
            return False
        if op == '>':
            return self.compare('<', b, a)
        if op == '>=':
            return self.compare('<=', b, a)
        if is_c(a) and is_c(b):
            try:
                return {'==': lambda: a[2] == b[2], '<': lambda: a[2] < b[2],
                        '<=': lambda: a[2] <= b[2]}[op]()
            except TypeError:
                raise AnalysisError(f'comparison {a} {op} {b}') from None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == 'call' and \
                    dotted(x[1]) == 'len' and num(y):
                s = x[2][0]
                if op == '==' and y[2] == 0:
                    return not self.truth(s)
                if x is b and op == '<' and y[2] == 0:   # 0 < len
                    return self.truth(s)
                if x is a and op == '<' and y[2] == 1:   # len < 1
                    return not self.truth(s)
                if x is b and op == '<=' and y[2] == 1:  # 1 <= len
                    return self.truth(s)
        if op == '==':
            if a == NONE or b == NONE:
                return self.is_none(b if a == NONE else a)
            if a[0] == 'enum' and b[0] == 'enum':
                return a == b
            if TRUE in (a, b) or FALSE in (a, b):
                x, k = (a, b) if is_c(b) else (b, a)
                return self.truth(x) == k[2]
            return self.atoms.eq(a, b)
        if op == '<=':
            return not self.compare('<', b, a)
        return self.atoms.pick(('lt', a, b), (False, True))

    def contains(self, a, b):
        if isinstance(b, (Obj, Cls)):
            items = self.elements(b)
            return any(self.compare('==', x, a) for x in items)
        if is_c(b) and is_c(a):
            return a[2] in b[2]
        if is_c(b) and isinstance(b[2], str):
            return self.atoms.truth(('in', self.term(a), b))
        if isinstance(b, Seq):
            return any(self.compare('==', x, a) for x in self.elements(b))
        b = self.term(b)
        if b[0] == 'call' and b[1][0] == 'attr' and b[1][2] == 'keys' \
                and not b[2]:
            b = b[1][1]
        if (b, self.term(a)) in self.overlay:
            return True
        return self.atoms.truth(('in', self.term(a), b))

    # -- iterables -------------------------------------------------------
    def elements(self, v, arity=None):
        if isinstance(v, Obj):
            if v.kind == 'dict':
                return [k for k, _ in v.items]
            return list(v.items)
        if isinstance(v, Cls) and v.enum():
            return [self.enumerator(v, n) for n in v.values]
        if isinstance(v, Record):
            return list(v.fields.values())
        if isinstance(v, Seq):
            if isinstance(v.base, list):
                return [v.get(i) for i in range(len(v.base))]
            n = arity if arity is not None else self.atoms.length(v.base)
            return [v.get(i) for i in range(n)]
        if is_c(v) and isinstance(v[2], (str, tuple, range)):
            return [C(x) for x in v[2]]
        if isinstance(v, tuple) and v[0] in ('list', 'tuple'):
            return list(v[1])
        if not isinstance(v, tuple):
            raise AnalysisError(f'iteration over {v}')
        s = self.seq(v)
        n = arity if arity is not None else self.atoms.length(s.base)
        return [s.get(i) for i in range(n)]

    def seq(self, v):
        if isinstance(v, Seq):
            return v
        if isinstance(v, (Obj, Cls, Record)) or is_c(v):
            it = self.elements(v)
            return Seq(it, lambda i: it[i])
        if v[0] == 'call' and v[1][0] == 'attr' and not v[2]:
            base, name = v[1][1], v[1][2]
            if name == 'keys' and base not in self.selfcls:
                return Seq(base, lambda i: ('item', base, i))
            if name == 'items':
                return Seq(base, lambda i: Obj('tuple', [
                    ('item', base, i),
                    self.subscript(base, ('item', base, i))]))
            if name == 'values':
                return Seq(base, lambda i: self.subscript(
                    base, ('item', base, i)))
            if name == 'groups':
                return Seq(v, lambda i: ('call', ('attr', base, 'group'),
                                         (C(i + 1), ), ()))
        return Seq(v, lambda i: ('item', v, i))

    def unpack(self, v, n):
        if isinstance(v, tuple) and v[0] == 'call' and v[1][0] == 'attr' and \
                v[1][2] == 'span' and n == 2:
            b = v[1][1]
            return [('call', ('attr', b, k), (), ()) for k in ('start',
                                                               'end')]
        r = self.elements(v, n)
        if len(r) != n:
            raise Raise('ValueError')
        return r

    # -- statements ------------------------------------------------------
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.seen.add((self.mod.path, s.lineno))
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise AnalysisError(f'{self.mod.path}:{s.lineno}: statement {k}')
        m(s, env)

    def s_Pass(self, s, env):
        pass

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Delete = s_Pass

    def s_Expr(self, s, env):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Call):
            self.call(v, env, discard=True)
            return
        self.elements_if_seq(self.ev(v, env))

    def elements_if_seq(self, v):
        if isinstance(v, Seq):
            self.elements(v)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        cur = self.ev(ast.copy_location(self.load(s.target), s), env)
        v = self.ev(s.value, env)
        if isinstance(cur, Obj) and cur.kind == 'list' and \
                isinstance(s.op, ast.Add):
            cur.items.extend(self.elements(v))
            return
        self.assign(s.target, self.binary(type(s.op).__name__, cur, v), env)

    @staticmethod
    def load(t):
        t = ast.parse(ast.unparse(t), mode='eval').body
        return ast.fix_missing_locations(t)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x, y in zip(t.elts, self.unpack(v, len(t.elts))):
                self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            self.store(b, i, v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            if isinstance(b, Record):
                b.fields[t.attr] = v
                return
            b = self.term(b)
            self.overlay[(b, ('.', t.attr))] = v
            self.event(b, ('set', t.attr, self.term(v)))
        else:
            raise AnalysisError(f'assignment to {ast.dump(t)[:80]}')

    def store(self, b, i, v):
        if isinstance(b, Obj):
            if b.kind == 'dict':
                ti = self.term(i)
                for n, (k, _) in enumerate(b.items):
                    if self.term(k) == ti:
                        b.items[n] = (k, v)
                        return
                b.items.append((i, v))
                return
            if is_c(i) and isinstance(i[2], int):
                b.items[i[2]] = v
                return
            raise AnalysisError('store into a list at an unknown index')
        b, i = self.term(b), self.term(i)
        self.overlay[(b, i)] = v
        self.event(b, ('store', i, self.term(v)))

    def event(self, root, what):
        self.events.append((root, what))

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse,
                   env)

    def s_While(self, s, env):
        for _ in range(64):
            if not self.truth(self.ev(s.test, env)):
                self.block(s.orelse, env)
                return
            try:
                self.block(s.body, env)
            except Break:
                return
            except Continue:
                continue
        raise AnalysisError(f'{self.mod.path}:{s.lineno}: loop without a '
                            'bound')

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        for x in self.elements(it):
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except Break:
                return
            except Continue:
                continue
        self.block(s.orelse, env)

    def s_Break(self, s, env):
        raise Break()

    def s_Continue(self, s, env):
        raise Continue()

    def s_Return(self, s, env):
        raise Return(self.ev(s.value, env) if s.value else NONE)

    def s_Raise(self, s, env):
        if s.exc is None:
            raise Raise(*(self.handling or ('Exception', None)))
        e = s.exc
        if isinstance(e, ast.Call):
            d = ast.unparse(e.func)
        elif isinstance(e, ast.Name) and e.id in env:
            v = env[e.id]
            d = v[1] if isinstance(v, tuple) and v[0] == 'exc' else None
            if isinstance(v, tuple) and v[0] == 'call':
                d = dotted(v[1])
        else:
            d = ast.unparse(e)
        if d is None:
            raise AnalysisError(f'{self.mod.path}:{s.lineno}: exception of '
                                'unknown class')
        raise Raise(d.split('.')[-1])

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise Raise('AssertionError')

    def s_With(self, s, env):
        for w in s.items:
            v = self.ev(w.context_expr, env)
            if w.optional_vars is not None:
                self.assign(w.optional_vars, v, env)
        self.block(s.body, env)

    def s_FunctionDef(self, s, env):
        env[s.name] = Func(s, env, self.mod, name=s.name)

    def s_ClassDef(self, s, env):
        env[s.name] = Cls(self.mod, s, env)

    def s_Try(self, s, env):
        try:
            self.block(s.body, env)
        except Raise as r:
            for h in s.handlers:
                names = [] if h.type is None else [
                    ast.unparse(x).split('.')[-1] for x in (
                        h.type.elts if isinstance(h.type, ast.Tuple)
                        else [h.type])]
                if h.type is None or BASES.get(r.cls, set()) & set(names) \
                        or {r.cls, 'Exception'} & set(names):
                    if h.name:
                        env[h.name] = ('exc', r.cls, r.term)
                    old, self.handling = self.handling, (r.cls, r.term)
                    try:
                        self.block(h.body, env)
                    finally:
                        self.handling = old
                    break
            else:
                self.block(s.finalbody, env)
                raise
        else:
            self.block(s.orelse, env)
        self.block(s.finalbody, env)

    # -- expressions -----------------------------------------------------
    def ev(self, e, env):
        k = type(e).__name__
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise AnalysisError(f'{self.mod.path}:'
                                f'{getattr(e, "lineno", 0)}: expression {k}')
        return m(e, env)

    def e_Constant(self, e, env):
        return C(e.value)

    def e_Name(self, e, env):
        n = e.id
        if n in env:
            return env[n]
        m = self.mod
        if n in m.imports:
            return ('v', ALIAS.get(m.imports[n], m.imports[n]))
        if n in m.functions:
            if n in self.opaque:
                return ('v', n)
            return Func(m.functions[n], {}, m, name=n)
        if n in m.classes:
            k = m.classes[n]
            return ('v', n) if n in self.opaque else k
        if n in m.globals:
            if n in self.opaque:
                return ('v', n)
            return self.ev(m.globals[n], {})
        return ('v', n)

    def e_Attribute(self, e, env):
        return self.attribute(self.ev(e.value, env), e.attr)

    def enumerator(self, k, n):
        return ('enum', k.name, n)

    def attribute(self, b, name):
        if isinstance(b, Record):
            if name in b.fields:
                return b.fields[name]
            f = b.cls.find(name)
            if f:
                return self.bound(b, b.cls, name)
        if isinstance(b, Cls):
            if b.enum() and name in b.values:
                return self.enumerator(b, name)
            if name == '__name__':
                return C(b.name)
            f = b.find(name)
            if f:
                return Func(f[1], b.env or {}, self.mod, f[0], name=name)
            if name in b.values:
                return self.ev(b.values[name], {})
            o = b.outer()
            if o:
                return ('v', f'{o}.{name}')
        if isinstance(b, Super):
            for base in b.cls.bases:
                k = self.mod.classes.get(base)
                f = k and k.find(name)
                if f:
                    return Func(f[1], {}, self.mod, f[0], None
                                if f[0].static(name) else b.self_, name)
            return ('super', b.cls.outer() or 'object', name)
        if isinstance(b, tuple) and b[0] == 'enum':
            k = self.mod.classes.get(b[1])
            if name == 'name':
                return C(b[2])
            if name == 'value':
                return self.ev(k.values[b[2]], {})
        if isinstance(b, (Obj, Seq)) or is_c(b):
            return ('attr', b, name)
        if isinstance(b, tuple):
            t = self.overlay.get((b, ('.', name)))
            if t is not None:
                return t
            if b in self.selfcls:
                k = self.selfcls[b]
                if k.prop(name):
                    f = k.find(name)
                    return self.apply(Func(f[1], {}, self.mod, f[0], b, name),
                                      [], {})
                if k.find(name):
                    return self.bound(b, k, name)
            if b[0] == 'v':
                d = f'{b[1]}.{name}'
                return ('v', ALIAS.get(d, d))
            if name == 'ndim':
                return ('call', ('v', 'len'), (('attr', b, 'shape'), ), ())
        return ('attr', self.term(b), name)

    def bound(self, b, k, name):
        f = k.find(name)
        return Func(f[1], k.env or {}, self.mod, f[0],
                    None if k.static(name) else b, name)

    def e_Subscript(self, e, env):
        return self.subscript(self.ev(e.value, env), self.ev(e.slice, env))

    def subscript(self, b, i):
        if isinstance(b, Obj):
            if b.kind == 'dict':
                for k, v in b.items:
                    if self.compare('==', k, i):
                        return v
                raise Raise('KeyError')
            if is_c(i) and isinstance(i[2], int):
                try:
                    return b.items[i[2]]
                except IndexError:
                    raise Raise('IndexError') from None
            if isinstance(i, tuple) and i[0] == 'slice' and all(
                    is_c(x) for x in i[1:]):
                return Obj(b.kind, b.items[slice(*(x[2] for x in i[1:]))])
            return ('sub', self.term(b), self.term(i))
        if isinstance(b, Record) and is_c(i):
            return list(b.fields.values())[i[2]]
        if isinstance(b, Cls) and b.enum():
            if is_c(i) and i[2] in b.values:
                return self.enumerator(b, i[2])
            return ('sub', ('v', b.name), self.term(i))
        if isinstance(b, Seq) and is_c(i) and isinstance(i[2], int):
            it = self.elements(b)
            return it[i[2]]
        if is_c(b) and is_c(i):
            return C(b[2][i[2]])
        b, i = self.term(b), self.term(i)
        if (b, i) in self.overlay:
            return self.overlay[(b, i)]
        if is_c(i) and i[1] == 'int' and i[2] >= 0 and not (
                b[0] == 'call' and b[1][0] == 'attr' and
                b[1][2] in ('groups', 'span')):
            return ('item', b, i[2])
        if b[0] == 'call' and b[1][0] == 'attr' and is_c(i):
            if b[1][2] == 'groups' and isinstance(i[2], int) and i[2] >= 0:
                return ('call', ('attr', b[1][1], 'group'), (C(i[2] + 1), ),
                        ())
            if b[1][2] == 'span' and i[2] in (0, 1):
                return ('call', ('attr', b[1][1], ('start', 'end')[i[2]]), (),
                        ())
        return ('sub', b, i)

    def e_Slice(self, e, env):
        return ('slice', ) + tuple(
            self.term(self.ev(x, env)) if x is not None else NONE
            for x in (e.lower, e.upper, e.step))

    def e_Tuple(self, e, env):
        return Obj('tuple', self.spread(e.elts, env))

    def e_List(self, e, env):
        return Obj('list', self.spread(e.elts, env))

    def e_Set(self, e, env):
        return Obj('set', self.spread(e.elts, env))

    def spread(self, elts, env):
        r = []
        for x in elts:
            if isinstance(x, ast.Starred):
                r += self.elements(self.ev(x.value, env))
            else:
                r.append(self.ev(x, env))
        return r

    def e_Dict(self, e, env):
        d = Obj('dict', [])
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                if isinstance(o, Obj):
                    for a, b in o.items:
                        self.store(d, a, b)
                elif not d.items:
                    # {**symbolic, ...}: a copy with stores
                    return self.copied(o, e, env)
                else:
                    raise AnalysisError('{..., **symbolic}')
                continue
            self.store(d, self.ev(k, env), self.ev(v, env))
        return d

    def copied(self, o, e, env):
        o = self.term(o)
        c = ('copy', o)
        for (b, i), v in list(self.overlay.items()):
            if b == o:
                self.overlay[(c, i)] = v
        for k, v in list(zip(e.keys, e.values))[1:]:
            if k is None:
                raise AnalysisError('{**a, **b}')
            self.overlay[(c, self.term(self.ev(k, env)))] = self.ev(v, env)
        return c

    def e_BinOp(self, e, env):
        return self.binary(type(e.op).__name__, self.ev(e.left, env),
                           self.ev(e.right, env))

    def binary(self, op, a, b):
        if isinstance(a, Obj) and isinstance(b, Obj) and op == 'Add':
            return Obj(a.kind, a.items + b.items)
        if isinstance(a, Obj) and op == 'Mult' and is_c(b):
            return Obj(a.kind, a.items * b[2])
        a, b = self.term(a), self.term(b)
        lets = self.atoms.lets
        if op == 'Add':
            a, b = (lets[1][x[1]] if x[0] == 'let' and not numeric(y) else x
                    for x, y in ((a, b), (b, a)))
        r = binop(op, a, b)
        if r[0] == 'cat' and len(repr(r)) > 200:
            # long strings are named: both sides share the names
            if r not in lets[0]:
                lets[0][r] = ('let', len(lets[1]))
                lets[1].append(r)
            r = lets[0][r]
        return r

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        o = type(e.op).__name__
        if o == 'Not':
            return C(not self.truth(v))
        if o == 'USub':
            return binop('Mult', C(-1), self.term(v))
        if o == 'UAdd':
            return v
        if is_c(v):
            return C(~v[2])
        return ('inv', self.term(v))

    def e_BoolOp(self, e, env):
        stop = isinstance(e.op, ast.Or)
        for x in e.values[:-1]:
            v = self.ev(x, env)
            if self.truth(v) == stop:
                return C(stop) if isinstance(v, tuple) and v[0] == 'cmp' \
                    else v
        return self.ev(e.values[-1], env)

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env))
                       else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        if len(e.ops) > 1:
            for o, x in zip(e.ops, e.comparators):
                b = self.ev(x, env)
                if not self.compare(CMP[type(o).__name__], a, b):
                    return FALSE
                a = b
            return TRUE
        op = CMP[type(e.ops[0]).__name__]
        b = self.ev(e.comparators[0], env)
        if op in ('==', '!=', '<', '<=', '>', '>=') and not any(
                isinstance(x, (Record, Obj, Cls, Seq)) or x == NONE
                for x in (a, b)) and not (is_c(a) and is_c(b)):
            if op in ('>', '>='):
                a, b, op = b, a, {'>': '<', '>=': '<='}[op]
            if op in ('==', '!=') and repr(b) < repr(a):
                a, b = b, a
            return ('cmp', op, self.term(a), self.term(b))
        return C(self.compare(op, a, b))

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
                continue
            x = self.term(self.ev(v.value, env))
            spec = ast.unparse(v.format_spec) if v.format_spec else ''
            if is_c(x) and not spec and v.conversion == -1:
                parts.append(C(str(x[2])))
            else:
                parts.append(('fmt', x, v.conversion, spec))
        if all(is_c(p) for p in parts):
            return C(''.join(p[2] for p in parts))
        return ('fstr', tuple(parts))

    def e_Lambda(self, e, env):
        return Func(e, env, self.mod)

    def comp(self, gens, env, make):
        out = []

        def go(i, env):
            if i == len(gens):
                out.append(make(env))
                return
            g = gens[i]
            for x in self.elements(self.ev(g.iter, env)):
                env = dict(env)
                self.assign(g.target, x, env)
                if all(self.truth(self.ev(c, env)) for c in g.ifs):
                    go(i + 1, env)

        go(0, dict(env))
        return out

    def e_ListComp(self, e, env):
        return Obj('list', self.comp(e.generators, env,
                                     lambda v: self.ev(e.elt, v)))

    def e_GeneratorExp(self, e, env):
        return self.e_ListComp(e, env)

    def e_SetComp(self, e, env):
        return Obj('set', self.comp(e.generators, env,
                                    lambda v: self.ev(e.elt, v)))

    def e_DictComp(self, e, env):
        d = Obj('dict', [])
        for k, v in self.comp(e.generators, env, lambda v: (
                self.ev(e.key, v), self.ev(e.value, v))):
            self.store(d, k, v)
        return d

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    # -- calls -----------------------------------------------------------
    def e_Call(self, e, env):
        return self.call(e, env)

    def call(self, e, env, discard=False):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                'super' not in env:
            k, s = env.get('%class'), env.get('%self')
            if k is None:
                raise AnalysisError('super() outside of a method')
            return Super(k, s)
        f = self.ev(e.func, env)
        args = self.spread(e.args, env)
        kw, star = {}, []
        for a in e.keywords:
            v = self.ev(a.value, env)
            if a.arg is None:
                if isinstance(v, Obj) and v.kind == 'dict':
                    for k, x in v.items:
                        kw[k[2]] = x
                else:
                    t = self.term(v)
                    if t[0] == 'copy':
                        base = t[1]
                    else:
                        base = t
                    for (b, i), x in list(self.overlay.items()):
                        if b == t and is_c(i):
                            kw[i[2]] = x
                    star.append(base)
            else:
                kw[a.arg] = v
        r = self.apply(f, args, kw, star, discard)
        if discard:
            self.elements_if_seq(r)
        return r

    def method(self, b, name, args, kw):
        return self.apply(self.attribute(b, name), args, kw)

    def apply(self, f, args, kw, star=(), discard=False):
        if isinstance(f, Func):
            if f.name in self.opaque and f.self_ is None:
                f = ('v', f.name)
            else:
                return self.inline(f, args, kw, star)
        if isinstance(f, Cls):
            return self.construct(f, args, kw, star)
        if isinstance(f, tuple) and f[0] == 'super':
            o = self.mod.imports.get(f[1].split('.')[0])
            name = f[1] if o is None else '.'.join(
                [o] + f[1].split('.')[1:])
            return self.opaque_call(('v', f'{name}.{f[2]}'),
                                    [SELF] + list(args), kw, star,
                                    discard)
        if isinstance(f, tuple) and f[0] == 'attr':
            r = self.builtin_method(f[1], f[2], args, kw, discard)
            if r is not None:
                return r
            f = ('attr', self.term(f[1]), f[2])
        if isinstance(f, tuple) and f[0] == 'v':
            r = self.builtin(f[1], args, kw)
            if r is not None:
                return r
        return self.opaque_call(f, args, kw, star, discard)

    def inline(self, f, args, kw, star=()):
        if self.depth > 12:
            raise AnalysisError('recursion')
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(f.env)
        pos = list(args)
        if f.self_ is not None:
            pos = [f.self_] + pos
        defaults = dict(zip(names[len(names) - len(a.defaults):],
                            a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        given = dict(kw)
        if star:
            raise AnalysisError('** given to a function of the package')
        for i, n in enumerate(names):
            if i < len(pos):
                env[n] = pos[i]
            elif n in given:
                env[n] = given.pop(n)
            elif n in defaults:
                env[n] = self.ev(defaults[n], dict(f.env))
            else:
                raise AnalysisError(f'{f.name}: argument {n} is missing')
        for x in a.kwonlyargs:
            if x.arg in given:
                env[x.arg] = given.pop(x.arg)
            elif x.arg in defaults:
                env[x.arg] = self.ev(defaults[x.arg], dict(f.env))
            else:
                raise AnalysisError(f'{f.name}: argument {x.arg} is missing')
        if a.vararg:
            env[a.vararg.arg] = Obj('tuple', pos[len(names):])
        elif len(pos) > len(names):
            raise AnalysisError(f'{f.name}: too many arguments')
        if a.kwarg:
            env[a.kwarg.arg] = Obj('dict', [(C(k), v)
                                            for k, v in given.items()])
        elif given:
            raise Raise('TypeError')
        if f.cls is not None:
            env['%class'] = f.cls
            env['%self'] = f.self_
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        self.depth += 1
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                  for n in ast.walk(f.node))
        if gen:
            raise AnalysisError(f'{f.name} is a generator')
        try:
            self.block(f.node.body, env)
        except Return as r:
            return r.value
        finally:
            self.depth -= 1
        return NONE

    def construct(self, k, args, kw, star):
        if k.enum():
            # the enumerator with that value
            v = args[0]
            for n in k.values:
                if self.compare('==', self.ev(k.values[n], {}), v):
                    return self.enumerator(k, n)
            raise Raise('ValueError')
        if star or k.name in self.opaque or not (
                k.dataclass() or any(b.split('.')[-1] == 'NamedTuple'
                                     for b in k.bases)):
            return self.opaque_call(('v', k.name), args, kw, star, False)
        flds = k.all_fields()
        vals = {}
        for i, (n, d) in enumerate(flds):
            if i < len(args):
                vals[n] = args[i]
            elif n in kw:
                vals[n] = kw[n]
            elif d is not None:
                vals[n] = self.ev(d, dict(k.env or {}))
            else:
                raise Raise('TypeError')
        r = Record(k, vals)
        if k.find('__post_init__'):
            self.method(r, '__post_init__', [], {})
        return r

    def opaque_call(self, f, args, kw, star, discard):
        f = self.term(f)
        d = dotted(f)
        args = [self.term(x) for x in args]
        kw = {k: self.term(v) for k, v in kw.items() if k not in DISCARDED}
        sig = SIGS.get(d)
        if sig is None and d in self.mod.functions:
            a = self.mod.functions[d].args
            n = [x.arg for x in a.posonlyargs + a.args]
            dv = [self.term(self.ev(x, {})) for x in a.defaults]
            sig = n[:len(n) - len(dv)] + list(zip(n[len(n) - len(dv):], [
                x[2] if is_c(x) else x for x in dv]))
        if sig:
            names = [x if isinstance(x, str) else x[0] for x in sig]
            full = dict(zip(names, args))
            extra = args[len(names):]
            full.update(kw)
            for x in sig:
                if not isinstance(x, str) and x[0] in full:
                    v = full[x[0]]
                    if v == C(x[1]) or (
                            isinstance(x[1], str) and
                            (dotted(v) or '').endswith('.' + x[1])):
                        del full[x[0]]
            args, kw = list(extra), full
        t = ('call', f, tuple(args), tuple(sorted(kw.items()))
             + tuple(('**', s) for s in star))
        if d and any(d == x or d.startswith(x) and x.endswith('.')
                     for x in IGNORED):
            return NONE
        name = d.split('.')[-1] if d else f[2] if f[0] == 'attr' else None
        for n, cls in self.raises.items():
            if n == d or n == '.' + str(name):
                cls = cls if isinstance(cls, tuple) else (cls, )
                r = self.atoms.pick(('raises', t), (False, ) + cls)
                if r:
                    raise Raise(r, t)
                discard = False
        if discard:
            root = f[1] if f[0] == 'attr' else d.rsplit('.', 1)[0] \
                if d and '.' in d else d
            self.event(root, ('call', name, t[2], t[3]))
        return t

    def builtin(self, d, args, kw):
        n = len(args)
        if d == 'len' and n == 1:
            v = args[0]
            if isinstance(v, Obj):
                return C(len(v.items))
            if is_c(v):
                return C(len(v[2]))
            if isinstance(v, Seq):
                return C(len(self.elements(v)))
            if isinstance(v, Cls):
                return C(len(self.elements(v)))
            if v[0] == 'call' and v[1][0] == 'attr' and not v[2] and \
                    v[1][2] in ('keys', 'items', 'values'):
                v = v[1][1]
            return ('call', ('v', 'len'), (self.term(v), ), ())
        if d == 'map':
            f, seqs = args[0], [self.seq(x) for x in args[1:]]
            return Seq(seqs[0].base, lambda i: self.apply(
                f, [s.get(i) for s in seqs], {}))
        if d == 'zip':
            seqs = [self.seq(x) for x in args]
            return Seq(seqs[0].base, lambda i: Obj(
                'tuple', [s.get(i) for s in seqs]))
        if d == 'enumerate':
            s = self.seq(args[0])
            st = args[1] if n > 1 else kw.get('start', C(0))
            return Seq(s.base, lambda i: Obj(
                'tuple', [binop('Add', C(i), st), s.get(i)]))
        if d in ('list', 'tuple', 'set') and n <= 1:
            return Obj(d, self.elements(args[0]) if n else [])
        if d == 'dict' and n <= 1:
            if n and isinstance(args[0], Obj) and args[0].kind == 'dict':
                r = Obj('dict', list(args[0].items))
            elif n and isinstance(args[0], tuple):
                o = args[0]
                c = ('copy', o)
                for (b, i), v in list(self.overlay.items()):
                    if b == o:
                        self.overlay[(c, i)] = v
                for k, v in kw.items():
                    self.overlay[(c, C(k))] = v
                return c
            else:
                r = Obj('dict', [])
                for x in (self.elements(args[0]) if n else []):
                    self.store(r, *self.unpack(x, 2))
            for k, v in kw.items():
                self.store(r, C(k), v)
            return r
        if d == 'iter' and n == 1:
            return self.seq(args[0])
        if d == 'sorted' and n == 1 and not kw and isinstance(args[0], Obj) \
                and all(is_c(x) for x in args[0].items):
            return Obj('list', sorted(args[0].items, key=lambda x: x[2]))
        if d == 'range' and all(is_c(x) for x in args):
            return Obj('list', [C(i) for i in range(*(x[2] for x in args))])
        if d == 'range':
            x = self.term(args[0])
            if n == 1 and x[0] == 'call' and dotted(x[1]) == 'len':
                return Seq(x[2][0], C)
        if d in ('all', 'any') and n == 1:
            stop = d == 'any'
            for x in self.elements(args[0]):
                if self.truth(x) == stop:
                    return C(stop)
            return C(not stop)
        if d == 'isinstance':
            return C(self.isinstance(*args))
        if d == 'bool' and n == 1:
            return C(self.truth(args[0]))
        if d == 'getattr' and n == 2 and is_c(args[1]):
            return self.attribute(args[0], args[1][2])
        if d == 'str' and n == 1 and is_c(args[0]):
            return C(str(args[0][2]))
        if d == 'int' and n == 1 and is_c(args[0]):
            return C(int(args[0][2]))
        if d in METHODS and n == 1 and not kw:
            return self.apply(('attr', self.term(args[0]), METHODS[d]), [],
                              {})
        if d == 'numpy.exp' and n == 1:
            p = poly(self.term(args[0]))
            if len(p) == 1:
                (k, v), = p.items()
                if v == 1j:
                    x = unpoly({k: 1})
                    return self.euler(x)
        if d in ('re.match', 're.search', 're.fullmatch') and n == 2:
            p = self.opaque_call(('v', 're.compile'), [args[0]], {}, (),
                                 False)
            return self.apply(('attr', p, d[3:]), [args[1]], {})
        if d.startswith('dataclasses.field'):
            f = kw.get('default_factory')
            if f is not None:
                return self.apply(f, [], {})
            return kw.get('default', NONE)
        return None

    def euler(self, x):
        c = self.opaque_call(('v', 'numpy.cos'), [x], {}, (), False)
        s = self.opaque_call(('v', 'numpy.sin'), [x], {}, (), False)
        return binop('Add', c, binop('Mult', C(1j), s))

    def isinstance(self, v, cls):
        if isinstance(cls, Obj):
            return any(self.isinstance(v, x) for x in cls.items)
        if isinstance(cls, tuple) and cls[0] == 'bin' and cls[1] == 'BitOr':
            return self.isinstance(v, cls[2]) or self.isinstance(v, cls[3])
        if isinstance(v, Record):
            return isinstance(cls, Cls) and v.cls.name == cls.name
        name = cls.name if isinstance(cls, Cls) else dotted(cls)
        if name is None:
            raise AnalysisError(f'isinstance of {cls}')
        if isinstance(v, Obj):
            return v.kind == name
        if is_c(v):
            return v[1] == name
        if isinstance(v, (Func, Cls, Seq)):
            return False
        if v[0] == 'call':
            d = dotted(v[1])
            if d == name or (d, name) == ('numpy.array', 'numpy.ndarray'):
                return True
            if d in EXCLUSIVE or d == 'numpy.array':
                return False
        return self.atoms.isinstance(v, name)

    def builtin_method(self, b, name, args, kw, discard):
        if isinstance(b, Obj):
            if b.kind == 'list' and name == 'append':
                b.items.append(args[0])
                return NONE
            if b.kind == 'list' and name == 'extend':
                b.items.extend(self.elements(args[0]))
                return NONE
            if b.kind == 'set' and name == 'add':
                b.items.append(args[0])
                return NONE
            if b.kind == 'dict' and name == 'get':
                for k, v in b.items:
                    if self.compare('==', k, args[0]):
                        return v
                return args[1] if len(args) > 1 else NONE
            if b.kind == 'dict' and name in ('keys', 'values', 'items'):
                return Obj('list', [
                    k if name == 'keys' else v if name == 'values' else
                    Obj('tuple', [k, v]) for k, v in b.items])
            if b.kind == 'dict' and name == 'update':
                for x in args:
                    for k, v in x.items:
                        self.store(b, k, v)
                for k, v in kw.items():
                    self.store(b, C(k), v)
                return NONE
            if b.kind in ('list', 'tuple') and name == 'index' and \
                    is_c(args[0]):
                for i, x in enumerate(b.items):
                    if self.compare('==', x, args[0]):
                        return C(i)
                raise Raise('ValueError')
            if name == 'copy':
                return Obj(b.kind, list(b.items))
            return None
        if is_c(b) and isinstance(b[2], str):
            if name == 'join' and len(args) == 1:
                it = self.elements(args[0])
                if all(is_c(x) for x in it):
                    return C(b[2].join(x[2] for x in it))
            if all(is_c(x) for x in args) and not kw and name in (
                    'lower', 'upper', 'strip', 'split', 'title',
                    'startswith', 'endswith', 'replace', 'capitalize',
                    'format'):
                r = getattr(b[2], name)(*(x[2] for x in args))
                if isinstance(r, list):
                    return Obj('list', [C(x) for x in r])
                return C(r)
            return None
        if not isinstance(b, tuple):
            return None
        if name == 'update' and not args and kw and b not in self.selfcls:
            for k, v in kw.items():
                self.store(b, C(k), v)
            return NONE
        if name == 'update' and len(args) == 1 and isinstance(args[0], Obj) \
                and args[0].kind == 'dict':
            for k, v in args[0].items:
                self.store(b, k, v)
            return NONE
        if name == '__setitem__':
            self.store(b, *args)
            return NONE
        if name == 'get' and b[0] in ('sub', 'p', 'item', 'copy'):
            if self.contains(args[0], b):
                return self.subscript(b, args[0])
            return args[1] if len(args) > 1 else NONE
        if name in ('flatten', ) and not args:
            return ('call', ('attr', b, 'ravel'), (), ())
        if name == 'reshape' and len(args) == 1 and args[0] == C(-1):
            return ('call', ('attr', b, 'ravel'), (), ())
        if name in ('group', 'span', 'start', 'end') and not args:
            args = [C(0)]
            if name != 'group':
                return ('call', ('attr', b, name), (), ())
            return ('call', ('attr', b, name), (C(0), ), ())
        if name in ('span', 'start', 'end') and args == [C(0)]:
            return ('call', ('attr', b, name), (), ())
        if name == 'groups' and not args:
            return None
        if name == 'exists' and b[0] == 'call' and \
                dotted(b[1]) in ('pathlib.Path', ):
            return ('call', ('v', 'os.path.exists'), b[2], ())
        return None


# -- comparison -------------------------------------------------------------
class Target:
    def __init__(self, mod, qual, opaque=(), raises=None):
        self.mod, self.qual = mod, qual
        self.cls, self.node = mod.find(qual)
        self.opaque, self.raises = opaque, raises

    def params(self):
        a = self.node.args
        r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        return r

    def signature(self):
        a = self.node.args
        it = Interp(self.mod, Atoms((), 2), self.opaque)
        pos = a.posonlyargs + a.args
        df = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        out = []
        for x, d in list(zip(pos, df)) + list(zip(a.kwonlyargs,
                                                  a.kw_defaults)):
            out.append((x.arg, x in a.kwonlyargs,
                        it.term(it.ev(d, {})) if d is not None else None))
        return out

    def run(self, atoms, seen, fixed):
        it = Interp(self.mod, atoms, self.opaque, self.raises, seen)
        env = {}
        static = self.cls and self.cls.static(self.qual.split('.')[1])
        for i, n in enumerate(self.params()):
            env[n] = fixed.get(n, ('p', n))
            if i == 0 and self.cls and not static:
                env[n] = SELF
                it.selfcls[SELF] = self.cls
        if self.cls:
            env['%class'] = self.cls.find(self.qual.split('.')[1])[0]
            env['%self'] = SELF
        try:
            it.block(self.node.body, env)
            out = ('return', it.final(NONE))
        except Return as r:
            out = ('return', it.final(r.value))
        except Raise as r:
            out = ('raise', r.cls)
        return out, it


def group(events, it, ignore):
    g = {}
    for root, what in events:
        r = it.settle(root) if isinstance(root, tuple) else root
        if r in ignore:
            continue
        g.setdefault(r, []).append(it.settle(what))
    return g


def compare(impl, ref, depth=2, ignore=(), fixed=None, limit=20000,
            objects=(), assume=()):
    """Returns (paths, first difference or None, lines seen)."""
    schedule, paths, seen = [], 0, set()
    fixed = fixed or {}
    while True:
        atoms = Atoms(schedule, depth, objects, assume)
        try:
            a, ia = impl.run(atoms, seen, fixed)
            b, ib = ref.run(atoms, set(), fixed)
            if a[0] == 'return':
                a = ('return', ia.settle(a[1]))
                b = (b[0], ib.settle(b[1])) if b[0] == 'return' else b
            paths += 1
            ea, eb = group(ia.events, ia, ignore), group(ib.events, ib,
                                                         ignore)
            if a[0] == 'raise' and b[0] == 'raise':
                ea = eb = {}
            if a != b or ea != eb:
                return paths, (dict(atoms.known), a, b, ea, eb), seen
        except Skip:
            pass
        if paths > limit:
            raise AnalysisError(f'{impl.qual}: more than {limit} paths')
        made = atoms.made
        while made and made[-1][0] + 1 >= made[-1][1]:
            made.pop()
        if not made:
            return paths, None, seen
        schedule = [k for k, _ in made[:-1]] + [made[-1][0] + 1]


def show(t, d=0):
    if d > 6:
        return '...'
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    s = lambda x: show(x, d + 1)
    if k == 'c':
        return repr(t[2])
    if k in ('v', 'p'):
        return t[1]
    if k == 'let':
        return f'text{t[1]}'
    if k == 'attr':
        return f'{s(t[1])}.{t[2]}'
    if k == 'sub':
        return f'{s(t[1])}[{s(t[2])}]'
    if k == 'item':
        return f'{s(t[1])}<{t[2]}>'
    if k == 'call':
        return f'{s(t[1])}(' + ', '.join(
            [s(x) for x in t[2]] + [f'{n}={s(v)}' if n != '**'
                                    else '**' + s(v) for n, v in t[3]]) + ')'
    if k == 'cmp':
        return f'({s(t[2])} {t[1]} {s(t[3])})'
    if k == 'slice':
        return ':'.join('' if x == NONE else s(x) for x in t[1:])
    if k == 'poly':
        return '(' + ' + '.join('*'.join(
            ([] if c == 1 and m else [str(c)]) + [s(x) for x in m])
            for m, c in t[1]) + ')'
    return '(' + ', '.join(s(x) for x in t) + ')'
