"""Term domain of the analysis.

Every numeric value is kept in a canonical polynomial form over atoms (rational
coefficients), every other value as an uninterpreted application.  Equality of
two terms is decided by their canonical form; when the forms differ, random
interpretation (Gulwani & Necula, "Global value numbering using random
interpretation", POPL 2004) decides whether they are the same value number.
"""
import hashlib
import math
import random
import struct
from fractions import Fraction
from functools import lru_cache

MAXTERMS = 600


# ----------------------------------------------------------------- construction
# a numeric term is ('poly', ((mono, Fraction), ...)) with mono a sorted tuple of
# (atom, exponent); atoms are any other tuple
def _p(d):
    return ('poly', tuple(sorted(((m, nz(c)) for m, c in d.items() if c != 0),
                                 key=lambda x: (_key(x[0]), x[1]))))


_keys = {}


def _key(t):
    k = _keys.get(t)
    if k is None:
        k = repr(t)
        _keys[t] = k
    return k


ZERO = ('poly', ())


def nz(c):
    """Whole numbers are kept as int: they hash and compare faster."""
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return int(c) if type(c) is bool else c


def num(v):
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return ('const', 'nan' if math.isnan(v) else
                    ('inf' if v > 0 else '-inf'))
        v = Fraction(repr(v))
    elif isinstance(v, str):
        if v in ('nan', 'inf', '-inf'):
            return ('const', v)
        v = Fraction(repr(float(v))) if any(c in v for c in '.einf') else Fraction(v)
    v = nz(v if isinstance(v, (int, Fraction)) else Fraction(v))
    return ('poly', (((), v), )) if v else ZERO


ONE = num(1)
TRUE = ('bool', True)
FALSE = ('bool', False)


def sym(name):
    return ('sym', name)


def is_poly(t):
    return isinstance(t, tuple) and t and t[0] == 'poly'


def poly(t):
    """The polynomial dictionary of any term."""
    if is_poly(t):
        return dict(t[1])
    return {((t, 1), ): 1}


def unpoly(t):
    """('poly', x) with x one bare atom -> the atom."""
    if is_poly(t) and len(t[1]) == 1:
        (m, c), = t[1]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return t


def const(t):
    """The rational value of a constant term, or None."""
    if is_poly(t):
        if not t[1]:
            return 0
        if len(t[1]) == 1 and t[1][0][0] == ():
            return t[1][0][1]
    if t == TRUE:
        return 1
    if t == FALSE:
        return 0
    return None


def boolval(t):
    if t and t[0] == 'bool':
        return t[1]
    c = const(t)
    if c is not None:
        return c != 0
    return None


def _mono_mul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    i = d.pop(('sym', '#I'), 0)
    sign = 1
    if i:
        i %= 4
        if i >= 2:
            sign = -1
            i -= 2
        if i:
            d[('sym', '#I')] = 1
    # sqrt(x)^2 = x is left to the random interpretation
    return tuple(sorted(((k, e) for k, e in d.items() if e != 0),
                        key=lambda x: (_key(x[0]), x[1]))), sign


def add(*ts):
    if any(t and t[0] == 'ite' for t in ts) and False:
        pass
    d = {}
    for t in ts:
        if t[0] == 'const' or not t:
            return app('add', *ts)
        for m, c in poly(t).items():
            d[m] = d.get(m, 0) + c
    return norm(_p(d))


def norm(t):
    return unpoly(t) if is_poly(t) else t


def neg(t):
    return scale(t, -1)


def scale(t, k):
    if t[0] == 'const':
        return app('mul', num(k), t)
    return norm(_p({m: c * k for m, c in poly(t).items()}))


def sub(a, b):
    return add(a, neg(b))


def mul(*ts):
    r = {(): 1}
    for t in ts:
        if t[0] == 'const':
            return app('mul', *ts)
        p = poly(t)
        if len(r) * len(p) > MAXTERMS:
            return app('mul', *ts)
        n = {}
        for m1, c1 in r.items():
            for m2, c2 in p.items():
                m, s = _mono_mul(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2 * s
        r = n
    return norm(_p(r))


def inv(t):
    c = const(t)
    if c is not None:
        if c == 0:
            return app('inv0')
        return num(Fraction(1) / c)
    if t[0] == 'const':
        return app('inv', t)
    p = poly(t)
    if len(p) == 1:
        (m, c), = p.items()
        return norm(_p({tuple((k, -e) for k, e in m): Fraction(1) / c}))
    # normalise the leading coefficient
    lead = sorted(p.items(), key=lambda x: _key(x[0]))[0][1]
    q = norm(_p({m: Fraction(c) / lead for m, c in p.items()}))
    return norm(_p({((('inv', q), 1), ): Fraction(1) / lead}))


def div(a, b):
    return mul(a, inv(b))


def power(t, n):
    if n < 0:
        return inv(power(t, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, t)
    return r


def _commut(name, args):
    return (name, ) + tuple(sorted(args, key=_key))


NUMFN = {
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin,
    'acos': math.acos, 'atan': math.atan, 'sqrt': math.sqrt, 'abs': abs,
    'floor': math.floor, 'ceil': math.ceil, 'exp': math.exp, 'log': math.log,
}


def round_away(v):
    return math.floor(v + Fraction(1, 2)) if v >= 0 else \
        -math.floor(-v + Fraction(1, 2))


ROUNDING = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
            'round': round_away}


def app(name, *args):
    """An application, with the folding every rule may rely on."""
    args = tuple(args)
    if name in ('sin', 'tan', 'atan', 'asin', 'cos', 'abs') and len(args) == 1:
        a = args[0]
        if const(a) == 0:
            return ONE if name == 'cos' else ZERO
        p = poly(a)
        first = sorted(p.items(), key=lambda x: _key(x[0]))[0][1] if p else 0
        if a[0] != 'const' and first < 0:  # parity
            na = neg(a)
            return app(name, na) if name in ('cos', 'abs') else neg(app(name, na))
    if name in ('remainder', 'remquoq') and len(args) == 2:
        a, b = const(args[0]), const(args[1])
        if a is not None and b:
            q = round(Fraction(a) / Fraction(b))
            if name == 'remainder':
                return num(a - b * q)
            return num((abs(q) & 0x7) * (-1 if q < 0 else 1))
    if name == 'sqrt' and len(args) == 1:
        c = const(args[0])
        if c is not None and c >= 0:
            r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
            if r * r == c:
                return num(r)
    if name == 'abs' and const(args[0]) is not None:
        return num(abs(const(args[0])))
    if name in ROUNDING and const(args[0]) is not None:
        return num(ROUNDING[name](const(args[0])))
    if name in ('min', 'max') and len(args) == 2:
        if args[0] == args[1]:
            return args[0]
        a, b = const(args[0]), const(args[1])
        if a is not None and b is not None:
            return num(min(a, b) if name == 'min' else max(a, b))
        lo, hi = natural(sub(args[1], args[0]))
        if lo is not None and lo >= 0 or hi is not None and hi <= 0:
            return args[(lo is not None and lo >= 0) != (name == 'min')]
        return _commut(name, args)
    if name == 'idiv':
        a, b = const(args[0]), const(args[1])
        if a is not None and b not in (None, 0):
            return num(math.trunc(Fraction(a) / b))
        if b == 1:
            return args[0]
        q = divided(args[0], b)
        if q is not None:
            return q[0]
    if name == 'imod':
        a, b = const(args[0]), const(args[1])
        if a is not None and b not in (None, 0):
            return num(a - b * math.trunc(Fraction(a) / b))
        q = divided(args[0], b)
        if q is not None:
            return q[1]
    return (name, ) + args


# --------------------------------------------------------------------- booleans
def lnot(t):
    b = boolval(t)
    if b is not None:
        return ('bool', not b)
    if t[0] == 'not':
        return t[1]
    if t[0] == 'and':
        return lor(*[lnot(x) for x in t[1:]])
    if t[0] == 'or':
        return land(*[lnot(x) for x in t[1:]])
    return ('not', t)


def land(*ts):
    out = []
    for t in ts:
        b = boolval(t)
        if b is False:
            return FALSE
        if b is True:
            continue
        for x in (t[1:] if t[0] == 'and' else (t, )):
            if lnot(x) in out:
                return FALSE
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ('and', ) + tuple(sorted(out, key=_key))


def lor(*ts):
    out = []
    for t in ts:
        b = boolval(t)
        if b is True:
            return TRUE
        if b is False:
            continue
        for x in (t[1:] if t[0] == 'or' else (t, )):
            if lnot(x) in out:
                return TRUE
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ('or', ) + tuple(sorted(out, key=_key))


NONNUM = {'const', 'str', 'bool', 'null', 'ptr', 'ite', 'agg', 'list', 'fn', 'lam'}


PI = ('atan2', ('poly', ()), ('poly', (((), -1), )))


def infinite(t):
    """Sign of a value dominated by a positive number divided by zero."""
    sign = 0
    for m, c in poly(t).items():
        if (('inv0', ), 1) in m:
            if any(a not in (('inv0', ), PI) for a, e in m) or sign * c < 0:
                return 0
            sign = 1 if c > 0 else -1
        elif m:
            return 0
    return sign


def divided(t, b):
    """Quotient and remainder of a polynomial of natural numbers whose terms
    are divisible by b."""
    if not b or b < 0 or t[0] != 'poly' or (natural(t)[0] or -1) < 0:
        return None
    q, r = [], Fraction(0)
    for m, c in t[1]:
        if not m:
            r = Fraction(c)
        elif Fraction(c) % b:
            return None
        else:
            q.append((m, Fraction(c) / b))
    k = r // b
    return add(norm(_p(dict(q))), num(k)), num(r - b * k)


def natural(t):
    """Bounds of a polynomial of natural numbers (symbols nat:...)."""
    lo = hi = Fraction(0)
    for m, c in poly(t).items():
        if not m:
            lo = lo + c if lo is not None else None
            hi = hi + c if hi is not None else None
            continue
        if not all(a[0] == 'sym' and isinstance(a[1], str) and
                   a[1].startswith('nat:') and e > 0 for a, e in m):
            return None, None
        if c > 0:
            hi = None
        else:
            lo = None
    return lo, hi


def cmp(op, a, b):
    if op == '>':
        return cmp('<', b, a)
    if op == '>=':
        return cmp('<=', b, a)
    if op == '!=':
        return lnot(cmp('==', a, b))
    ca, cb = const(a), const(b)
    if (ca is None or cb is None) and a and b and a[0] not in NONNUM and \
            b[0] not in NONNUM:
        d = const(sub(a, b))
        if d is not None:
            ca, cb = d, 0
        else:
            lo, hi = natural(sub(b, a))
            if op == '==' and (lo is not None and lo > 0 or
                               hi is not None and hi < 0):
                return FALSE
            if op == '==':
                i = 0
            elif lo is not None and (lo > 0 or lo == 0 and op == '<='):
                return TRUE
            elif hi is not None and (hi < 0 or hi == 0 and op == '<'):
                return FALSE
            else:
                i = infinite(sub(a, b))
            if i:
                return ('bool', i < 0)
    if ca is not None and cb is not None:
        return ('bool', {'<': ca < cb, '<=': ca <= cb, '==': ca == cb}[op])
    if op == '==':
        if a[0] == 'str' and b[0] == 'str':
            return ('bool', a == b)
        if a == b and a[0] != 'const':
            return app('eqself', a) if False else TRUE
        if a[0] in ('null', 'ptr') and b[0] in ('null', 'ptr'):
            return ('bool', a == b)
        return _commut('eq', (a, b))
    return ({'<': 'lt', '<=': 'le'}[op], a, b)


def ite(c, a, b):
    v = boolval(c)
    if v is True:
        return a
    if v is False:
        return b
    if a == b:
        return a
    if c[0] == 'not':
        return ite(c[1], b, a)
    ba, bb = a[0] == 'bool', b[0] == 'bool'
    if ba and bb:
        return c if a[1] else lnot(c)
    if ba:
        return lor(c, b) if a[1] else land(lnot(c), b)
    if bb:
        return lor(lnot(c), a) if b[1] else land(c, a)
    if a[0] == 'ite' and a[1] == c:
        a = a[2]
    if b[0] == 'ite' and b[1] == c:
        b = b[3]
    if a == b:
        return a
    return ('ite', c, a, b)


# ------------------------------------------------------------------- traversal
def walk(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x)


def subst(t, f):
    """Bottom up rewriting: f(term) -> replacement or None."""
    memo = {}

    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        h = f(x)
        if h is not None:
            memo[x] = h
            return h
        if x[0] == 'poly':
            r = add(ZERO, *[
                mul(num(c), *[
                    (power(go(a), e)) for a, e in m
                ]) for m, c in x[1]
            ])
        elif x[0] == 'ite':
            r = ite(go(x[1]), go(x[2]), go(x[3]))
        elif x[0] == 'and':
            r = land(*[go(y) for y in x[1:]])
        elif x[0] == 'or':
            r = lor(*[go(y) for y in x[1:]])
        elif x[0] == 'not':
            r = lnot(go(x[1]))
        elif x[0] == 'inv' and len(x) == 2:
            r = inv(go(x[1]))
        elif x[0] in ('lt', 'le') and len(x) == 3:
            r = cmp({'lt': '<', 'le': '<='}[x[0]], go(x[1]), go(x[2]))
        elif x[0] == 'eq' and len(x) == 3:
            r = cmp('==', go(x[1]), go(x[2]))
        elif isinstance(x[0], str) and x[0] not in ('sym', 'str', 'bool', 'const'):
            r = app(x[0], *[go(y) if isinstance(y, tuple) else y for y in x[1:]])
        else:
            r = tuple(go(y) if isinstance(y, tuple) else y for y in x)
        memo[x] = r
        return r

    return go(t)


def atoms(t):
    """Leaf symbols and field reads of a term."""
    out = set()

    def go(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] in ('sym', 'obj'):
            out.add(x)
            return
        if x[0] in ('fld', 'at'):
            out.add(x)
        for y in x:
            if isinstance(y, tuple):
                go(y)

    go(t)
    return out


# ------------------------------------------------------- random interpretation
class Undefined(Exception):
    pass


def _h(*parts):
    return int.from_bytes(
        hashlib.sha256('|'.join(map(str, parts)).encode()).digest()[:8], 'big')


def _r(v):
    if isinstance(v, float):
        if math.isnan(v):
            return 'nan'
        return '%.7g' % v
    return repr(v)


LETS = []
_lets = {}


def let(t):
    """A name for a number."""
    if const(t) is not None or t[0] in ('const', 'let', 'sym'):
        return t
    if t not in _lets:
        _lets[t] = ('let', len(LETS))
        LETS.append(t)
    return _lets[t]


def intern(t, table=None, seen=None):
    """The same term with equal parts being one object, so that values can
    be remembered by identity."""
    table = {} if table is None else table
    seen = {} if seen is None else seen
    keep = seen.setdefault('keep', [])

    def go(x):
        if not isinstance(x, tuple):
            return x
        r = seen.get(id(x))
        if r is None:
            if x and x[0] == 'let':
                r = seen[id(x)] = go(LETS[x[1]])
                keep.append(x)
                return r
            y = tuple(go(z) for z in x)
            # equal parts are already one object: identity decides
            key = tuple(id(z) if isinstance(z, tuple) else (type(z), z)
                        for z in y)
            r = table.setdefault(key, y)
            seen[id(x)] = r
            seen[id(r)] = r
        return r

    return go(t)


BITWISE = dict(band=lambda a, b: a & b, bor=lambda a, b: a | b,
               bxor=lambda a, b: a ^ b)


LIMITS = {('double', 'max'): 1.7976931348623157e308,
          ('double', 'min'): 2.2250738585072014e-308,
          ('double', 'lowest'): -1.7976931348623157e308,
          ('double', 'epsilon'): 2.0**-52,
          ('float', 'max'): 3.4028234663852886e38,
          ('float', 'epsilon'): 2.0**-23}


class Interp:
    """One random interpretation: atoms get random numbers, uninterpreted
    applications a random function of their arguments' values."""

    exact = False
    env = None

    def __init__(self, seed, domain=None, env=None):
        self.seed = seed
        if env is not None:
            # chosen values, computed upon exactly
            self.env = env
            self.exact = True
        self.domain = domain
        self.memo = {}
        self.fns = {}
        self.opaque = set()

    def atom(self, t):
        rnd = random.Random(_h(self.seed, _key(t)))
        if self.domain:
            v = self.domain(t, rnd)
            if v is not None:
                return v
        return rnd.uniform(-2.0, 2.0)

    ids = False

    def ev(self, t):
        k = id(t) if self.ids else t
        r = self.memo.get(k)
        if r is None:
            r = self._ev(t)
            self.memo[k] = r
        return r

    def _ev(self, t):
        if not isinstance(t, tuple):
            return t
        k = t[0]
        if self.env is not None:
            k = id(t) if self.ids else t
            if k in self.env:
                return self.env[k]
        k = t[0]
        if self.domain and k not in ('poly', 'ite', 'and', 'or', 'not'):
            rnd = random.Random(_h(self.seed, _key(t)))
            v = self.domain(t, rnd)
            if v is not None:
                return v
        if k == 'limit' and (t[1], t[2]) in LIMITS:
            return LIMITS[(t[1], t[2])]
        if k in ROUNDING and len(t) == 2:
            v = self.ev(t[1])
            if isinstance(v, (int, float, Fraction)):
                if isinstance(v, float) and not math.isfinite(v):
                    return v
                return ROUNDING[k](v)
        if k == 'poly':
            s = 0.0 if not self.exact else 0
            for m, c in t[1]:
                v = float(c) if not self.exact else c
                for a, e in m:
                    x = self.ev(a)
                    if e < 0 and isinstance(x, int):
                        x = Fraction(x)
                    if isinstance(x, str):
                        x = (_h(x) % 1000003) / 1000.0
                    if e < 0 and x == 0:
                        raise Undefined()
                    v = v * x**e
                s = s + v
            return s
        if k == 'bool':
            return t[1]
        if k == 'const':
            return float(t[1])
        if k == 'isfinite' and len(t) == 2:
            v = self.ev(t[1])
            if isinstance(v, complex):
                return math.isfinite(v.real) and math.isfinite(v.imag)
            return not isinstance(v, float) or math.isfinite(v)
        if k == 'zerolike':
            v = self.ev(t[1])
            return v - v
        if k in ('real', 'imag') and len(t) == 2:
            v = self.ev(t[1])
            if isinstance(v, complex):
                return v.real if k == 'real' else v.imag
            return v if k == 'real' else 0
        if k == 'ite':
            return self.ev(t[2]) if self.truth(t[1]) else self.ev(t[3])
        if k == 'and':
            return all(self.truth(x) for x in t[1:])
        if k == 'or':
            return any(self.truth(x) for x in t[1:])
        if k == 'not':
            return not self.truth(t[1])
        if k in ('lt', 'le', 'eq') and len(t) == 3:
            a, b = self.ev(t[1]), self.ev(t[2])
            if isinstance(a, complex) or isinstance(b, complex):
                return a == b
            if isinstance(a, str) or isinstance(b, str):
                return a == b if k == 'eq' else _r(a) < _r(b)
            return {'lt': a < b, 'le': a <= b, 'eq': a == b}[k]
        if k == 'f32' and len(t) == 2:
            v = self.ev(t[1])
            if isinstance(v, (int, float, Fraction)):
                return Fraction(struct.unpack('f', struct.pack('f', v))[0]) \
                    if math.isfinite(v) else float(v)
        if k in NUMFN and len(t) == 2:
            v = self.ev(t[1])
            if isinstance(v, (int, float, Fraction)):
                try:
                    return NUMFN[k](v)
                except (ValueError, OverflowError):
                    raise Undefined()
            if isinstance(v, complex) and k == 'abs':
                return abs(v)
        if k == 'inv' and len(t) == 2:
            v = self.ev(t[1])
            if v == 0:
                raise Undefined()
            return 1 / (Fraction(v) if isinstance(v, int) else v)
        if k in ('add', 'mul'):
            r = 0.0 if k == 'add' else 1.0
            for x in t[1:]:
                r = r + self.ev(x) if k == 'add' else r * self.ev(x)
            return r
        if k in ('min', 'max'):
            f = min if k == 'min' else max
            return f(self.ev(x) for x in t[1:])
        if k == 'idiv' or k == 'imod':
            a, b = self.ev(t[1]), self.ev(t[2])
            if b == 0:
                raise Undefined()
            q = math.trunc(Fraction(a) / b)
            return q if k == 'idiv' else a - b * q
        if k == 'fmod':
            try:
                a, b = self.ev(t[1]), self.ev(t[2])
                if self.exact and b and not isinstance(a, float):
                    return a - b * math.trunc(Fraction(a) / Fraction(b))
                return math.fmod(a, b)
            except ValueError:
                raise Undefined()
        if k in ('remainder', 'remquoq'):
            a, b = self.ev(t[1]), self.ev(t[2])
            if not b or not all(math.isfinite(x) for x in (a, b)):
                raise Undefined()
            if self.exact:
                q = round(Fraction(a) / Fraction(b))
                r = a - b * q
            else:
                r = math.remainder(a, b)
                q = round((a - r) / b)
            if k == 'remainder':
                return r
            return (abs(q) & 0x7) * (-1 if q < 0 else 1)
        if k in BITWISE and len(t) == 3:
            a, b = self.ev(t[1]), self.ev(t[2])
            if all(isinstance(x, (int, float, Fraction)) and
                   math.isfinite(x) and x == int(x) for x in (a, b)):
                return BITWISE[k](int(a), int(b))
        if k == 'atan2':
            return math.atan2(self.ev(t[1]), self.ev(t[2]))
        if k == 'hypot':
            return math.hypot(*[self.ev(x) for x in t[1:]])
        if k == 'pow':
            try:
                return self.ev(t[1])**self.ev(t[2])
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Undefined()
        if k == 'isnan':
            v = self.ev(t[1])
            return isinstance(v, float) and math.isnan(v)
        if k == 'sym' and t[1] == '#I':
            return 1j
        if k == 'str':
            return t[1]
        if k == 'let':
            return self.ev(LETS[t[1]])
        if k in ('sym', 'obj', 'fld', 'deref', 'elem'):
            return self.atom(t)
        if self.exact and k == 'call':
            f = self.fns.get(t[1])
            if f is not None:
                return f(*[self.ev(x) for x in t[2:]])
        if self.exact and k == 'at' and t[1][0] == 'at' and \
                len(t[1]) == 4 and t[1][2] in ('row', 'col'):
            # a coefficient of a row or of a column
            x = t[-1]
            t = ('at', t[1][1]) + ((t[1][3], x) if t[1][2] == 'row' else
                                   (x, t[1][3]))
        if self.exact and k == 'at' and t[1][0] in ('mat', 'list', 'upd',
                                                        'eigen'):
            r = self.element(t[1], [self.ev(x) for x in t[2:]])
            if r is not None:
                return self.ev(r)
        # uninterpreted
        if self.exact:
            self.opaque.add(k)
        vals = [self.ev(x) if isinstance(x, tuple) and x and
                isinstance(x[0], str) else
                self.parts(x) if isinstance(x, tuple) else x for x in t[1:]]
        sig = _h(self.seed, k, *[_r(v) for v in vals])
        return random.Random(sig).uniform(-2.0, 2.0)

    def element(self, c, i):
        """The element of a concrete container at the values of an index."""
        if not all(isinstance(x, (int, Fraction)) and x == int(x) for x in i):
            return None
        i = [int(x) for x in i]
        b = c
        while b[0] == 'upd':
            b = b[1]
        rows = 0
        if b[0] == 'mat' and 1 not in b[1:3]:
            rows = b[1]
        elif b[0] == 'eigen' and len(b) == 4:
            rows = const(b[2])
        if rows and len(i) == 1:
            # the storage is by columns
            i = [i[0] % rows, i[0] // rows]
        while c[0] == 'upd':
            k = [self.ev(x) for x in c[2]]
            if rows and len(k) == 1:
                k = [k[0] % rows, k[0] // rows]
            if k == i:
                return c[3]
            c = c[1]
        if c[0] == 'list' and len(i) == 1 and 0 <= i[0] < len(c[1]):
            return c[1][i[0]]
        if c[0] == 'mat':
            r, n = c[1], c[2]
            p = i[0] if len(i) == 1 else i[0] * n + i[1]
            if 0 <= p < len(c[3]):
                return c[3][p]
        return None

    def parts(self, x):
        return tuple(self.ev(y) if isinstance(y, tuple) and y and
                     isinstance(y[0], str) and len(y) > 1 else
                     self.parts(y) if isinstance(y, tuple) else y for y in x)

    def truth(self, t):
        if t and t[0] in ('and', 'or', 'not', 'lt', 'le', 'eq', 'bool', 'isnan',
                          'isfinite'):
            return bool(self.ev(t))
        if t and t[0] == 'ite':
            return self.truth(t[2]) if self.truth(t[1]) else self.truth(t[3])
        v = self.ev(t)
        if isinstance(v, bool):
            return v
        if self.exact and isinstance(v, (int, Fraction)):
            return v != 0
        # an uninterpreted predicate: both outcomes must be explored
        return _h(self.seed, 'truth', _r(v)) & 1 == 1


def close(a, b, rtol=1e-12):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if isinstance(a, float) and math.isinf(a):
        return a == b
    if isinstance(b, float) and math.isinf(b):
        return False
    return abs(a - b) <= rtol * max(1.0, abs(a), abs(b))


def same(a, b, domain=None, trials=60, rtol=1e-12):
    """Do the two terms denote the same value?  (equal, how)"""
    if a == b:
        return True, 'canonical form'
    ok = 0
    for i in range(trials * 4):
        it = Interp(i, domain)
        try:
            x, y = it.ev(a), it.ev(b)
        except Undefined:
            continue
        except OverflowError:
            continue
        if not close(x, y, rtol):
            return False, f'{show(a)[:400]}  <>  {show(b)[:400]}'
        ok += 1
        if ok >= trials:
            break
    if ok < trials // 3:
        return False, 'no common domain: ' + show(a)[:200] + ' <> ' + show(b)[:200]
    return True, 'random interpretation'


def show(t):
    """The beginning of a term, for messages."""
    return _show(t, [2000])


def _show(t, left):
    if not isinstance(t, tuple) or not t:
        return str(t)
    left[0] -= 1
    if left[0] < 0:
        return '...'
    k = t[0]
    if k == 'poly':
        if not t[1]:
            return '0'
        out = []
        for m, c in t[1]:
            if left[0] < 0:
                out.append('...')
                break
            s = '*'.join(_show(a, left) + (f'^{e}' if e != 1 else '') for a, e in m)
            cs = str(float(c)) if c.denominator != 1 else str(c)
            out.append(cs if not m else (s if c == 1 else
                                         ('-' + s if c == -1 else cs + '*' + s)))
        return '(' + ' + '.join(out) + ')'
    if k in ('sym', 'obj'):
        return str(t[1])
    if k == 'str':
        return repr(t[1])
    if k in ('bool', 'const'):
        return str(t[1])
    if k == 'fld':
        return _show(t[1], left) + '.' + str(t[2])
    if k == 'at':
        return _show(t[1], left) + '[' + ','.join(_show(x, left) for x in t[2:]) + ']'
    if k == 'lt':
        return f'({_show(t[1], left)} < {_show(t[2], left)})'
    if k == 'le':
        return f'({_show(t[1], left)} <= {_show(t[2], left)})'
    if k == 'eq':
        return f'({_show(t[1], left)} == {_show(t[2], left)})'
    if k in ('and', 'or'):
        return '(' + f' {k} '.join(_show(x, left) for x in t[1:]) + ')'
    if k == 'ite':
        return f'({_show(t[1], left)} ? {_show(t[2], left)} : {_show(t[3], left)})'
    return f'{k}(' + ', '.join(_show(x, left) for x in t[1:]) + ')'
