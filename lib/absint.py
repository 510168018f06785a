"""Abstract interpreter over the resolved syntax tree (see tool/extract.cpp).

Every function is evaluated once, in the domain of gated value numbers
(lib/terms.py): the two arms of a branch are merged into ite terms, early exits
are merged by their guards, a loop is either unrolled (constant bounds) or
replaced by a closed summary of one symbolic iteration.  No path is enumerated,
no input is ever chosen and no solver is involved.
"""
import re
import sys

from facts import AnalysisError
import terms as T
from terms import (ONE, TRUE, FALSE, ZERO, add, app, cmp, const, div, ite, land,
                   lnot, lor, mul, neg, num, sub, sym)

sys.setrecursionlimit(200000)

UNROLL = 400
NULL = ('null', )
VOID = ('void', )

INT_BITS = {
    'bool': (1, False), 'char': (8, True), 'signed char': (8, True),
    'unsigned char': (8, False), 'short': (16, True),
    'unsigned short': (16, False), 'int': (32, True),
    'unsigned int': (32, False), 'long': (64, True),
    'unsigned long': (64, False), 'long long': (64, True),
    'unsigned long long': (64, False), '__int128': (128, True),
}
FLOATS = {'float', 'double', 'long double'}


def bare(t):
    t = t or ''
    t = t.strip()
    if t.endswith('&&'):
        t = t[:-2].strip()
    elif t.endswith('&'):
        t = t[:-1].strip()
    while t.startswith('const '):
        t = t[6:]
    if t.endswith(' const'):
        t = t[:-6]
    return t.strip()


def is_int(t):
    return bare(t) in INT_BITS


def is_float(t):
    return bare(t) in FLOATS


_strip_cache = {}


def strip_targs(n):
    r = _strip_cache.get(n)
    if r is None:
        out, d = [], 0
        i = 0
        while i < len(n):
            c = n[i]
            if n.startswith('operator', i) and d == 0:
                out.append(n[i:])
                break
            if c == '<':
                d += 1
            elif c == '>':
                d -= 1
            elif d == 0:
                out.append(c)
            i += 1
        r = ''.join(out)
        _strip_cache[n] = r
    return r


def split_name(n):
    """('std::vector', 'push_back') for std::vector<..>::push_back."""
    s = strip_targs(n or '')
    i = s.find('operator')
    if i >= 0 and (i == 0 or s[i - 1] == ':'):
        return s[:max(0, i - 2)], s[i:]
    if '::' in s:
        a, b = s.rsplit('::', 1)
        return a, b
    return '', s


ALGORITHMS = ('for_each', 'all_of', 'any_of', 'none_of', 'find_if',
              'find_if_not', 'count_if', 'generate', 'equal', 'transform',
              'accumulate', 'find', 'count', 'copy', 'fill', 'inner_product',
              'iota', 'replace_if', 'max_element', 'min_element')


PAIR = {'first': 0, 'second': 1}
EIGEN_VIEWS = ('row', 'col', 'head', 'tail', 'segment', 'topRows',
               'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'block',
               'array', 'matrix', 'noalias', 'derived', 'transpose', 'real',
               'imag')


def filled(v, n):
    c = const(n)
    if c is not None and 0 <= c <= 512:
        return ('list', (v, ) * int(c))
    return ('fill', v, n)


def bmin(t, args):
    return t


class State:
    __slots__ = ('store', 'pc', 'dead')

    def __init__(self, store=None, pc=()):
        self.store = store if store is not None else {}
        self.pc = pc
        self.dead = False

    def clone(self):
        s = State(dict(self.store), self.pc)
        s.dead = self.dead
        return s


class Frame:
    def __init__(self, fn, this, parent=None):
        self.fn = fn
        self.tu = fn.get('tu') if fn else (parent.tu if parent else None)
        self.env = {}
        self.this = this
        self.exits = []   # (kind, pc, value, store, line)
        self.parent = parent
        self.depth = (parent.depth + 1) if parent else 0


class Event:
    __slots__ = ('kind', 'pc', 'data', 'file', 'line', 'fn', 'loops')

    def __init__(self, kind, pc, data, file, line, fn, loops):
        self.kind, self.pc, self.data = kind, pc, data
        self.file, self.line, self.fn, self.loops = file, line, fn, loops

    def where(self):
        return f'{self.file}:{self.line}'

    def __repr__(self):
        return f'<{self.kind} {self.where()} {str(self.data)[:120]}>'


class Result:
    """Summary of one function: value term, final store, throw guards."""

    def __init__(self):
        self.value = VOID
        self.store = {}
        self.throws = []
        self.returns = []
        self.events = []


MATH1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'exp', 'log',
         'floor', 'ceil', 'round', 'cosh', 'sinh', 'tanh', 'log10'}
MATH1_ALIAS = {'sinf': 'sin', 'cosf': 'cos', 'sqrtf': 'sqrt', 'fabsf': 'fabs'}
MATH2 = {'atan2', 'fmod', 'hypot', 'remainder'}
SMART = {'std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr',
         'std::__shared_ptr_access', 'std::weak_ptr', 'std::__weak_ptr',
         'boost::optional', 'std::optional', 'boost::optional_base',
         'boost::optional_detail::optional_base'}
PURE_MUT = {'begin', 'end', 'data', 'operator[]', 'operator()', 'operator*',
            'operator->', 'get', 'at', 'front', 'back', 'row', 'col', 'array',
            'head', 'tail', 'topRows', 'bottomRows', 'rbegin', 'rend', 'base',
            'transpose', 'real', 'imag', 'matrix', 'cwise', 'block', 'coeff',
            'coeffRef', 'find', 'outer', 'inners', 'finished', 'value', 'str',
            'leftCols', 'rightCols', 'middleRows', 'segment', 'get_value_or',
            'eval', 'noalias', 'emplace_hint', 'equal_range', 'lower_bound'}
VECS = {'std::vector', 'std::array', 'std::initializer_list', 'std::deque',
        'std::list', 'std::basic_string'}


class Engine:
    def __init__(self, facts, opaque=(), models=None, devirt=None, maxdepth=60,
                 globals_=None, lets=0):
        self.F = facts
        self.lets = lets
        self.opaque = set(opaque)
        self.models = dict(models or {})
        self.devirt = dict(devirt or {})
        self.maxdepth = maxdepth
        self.nloc = 0
        self.events = []
        self.overflow = []
        self.loops = []      # bound loop stack
        self.loopdepth = 0
        self.closures = {}
        self.globals_over = globals_ or {}
        self.tryn = 0
        self.inlined = set()
        self.opaque_seen = set()
        self.locs = [None]          # location number -> location
        self.opaque_n = 0
        self.statics = set()
        self.constmemo = {}
        self.unknown = set()
        self.glob_busy = set()
        self.globcache = {}
        self.nolookup = False
        self.paths = {}

    # ------------------------------------------------------------- locations
    def newloc(self, hint=''):
        self.nloc += 1
        r = ('loc', self.nloc, hint)
        self.locs.append(r)
        return r

    def root_init(self, root):
        k = root[0]
        if k == 'loc':
            return ('undef', root[2])
        if k == 'this':
            return ('obj', 'this')
        if k == 'arg':
            return ('obj', root[1])
        if k == 'mem':
            return ('deref', root[1])
        if k == 'glob' and root[2:] == ('python', ):
            return root[:2]
        if k == 'glob':
            if len(root) > 2 and not self.nolookup:
                v = self.globcache.get(root)
                if v is None:
                    fr = Frame({'n': '<global>', 'file': '', 'tu': root[2][0],
                                'ret': ''}, (('none', ), ()))
                    fr.tu = root[2][0]
                    v = self.globval({'d': root[2][1], 'n': root[1]},
                                     State({}, ()), fr)
                    self.globcache[root] = v
                return v
            return ('glob', root[1])
        return root

    def select(self, v, s):
        if v and v[0] == 'ite' and v[0] == 'ite':
            if self._struct(v[2]) or self._struct(v[3]):
                return ite(v[1], self.select(v[2], s), self.select(v[3], s))
        if s[0] == 'f':
            if v[0] == 'list' and s[1] in PAIR and len(v[1]) == 2:
                return v[1][PAIR[s[1]]]
            while v[0] == 'agg':
                for n, x in v[3]:
                    if n == s[1]:
                        return x
                v = v[2]
                if v[0] == 'ite':
                    return self.select(v, s)
            if v[0] == 'undef':
                return ('undef', f'{v[1]}.{s[1]}')
            if v[0] == 'zero':
                return ZERO if v == ('zero', ) else v
            return ('fld', v, s[1])
        # index
        idx = s[1:]
        if idx and isinstance(idx[0], str):
            return self.view(v, idx)
        while True:
            if v[0] == 'mat':
                k = mat_pos(v, idx)
                return v[3][k] if k is not None else ('at', v) + idx
            if v[0] == 'str' and len(idx) == 1:
                c = const(idx[0])
                if c is not None and 0 <= c < len(v[1]):
                    return num(ord(v[1][int(c)]))
                return ('at', v) + idx
            if v[0] == 'list' and len(idx) == 1:
                c = const(idx[0])
                if c is not None and 0 <= c < len(v[1]):
                    return v[1][int(c)]
                return ('at', v) + idx
            if v[0] == 'upd':
                if v[2] == idx:
                    return v[3]
                if len(v[2]) == len(idx) and not isinstance(
                        v[2][0], str) and any(
                        const(sub(a, b)) not in (None, 0)
                        for a, b in zip(v[2], idx)):
                    v = v[1]
                    continue
                if len(v[2]) != len(idx):
                    m = self.mat(v)
                    k = mat_pos(m, idx) if m is not None else None
                    if k is not None:
                        return m[3][k]
                return ('at', v) + idx
            if v[0] == 'fill':
                return v[1]
            if v[0] == 'agg' and not v[3]:
                v = v[2]
                continue
            if v[0] == 'ite' and (self._struct(v[2]) or self._struct(v[3])):
                return ite(v[1], self.select(v[2], s), self.select(v[3], s))
            return ('at', v) + idx

    @staticmethod
    def _struct(v):
        return v[0] in ('agg', 'list', 'upd', 'fill', 'ite', 'mat')

    # ------------------------------------------------- matrices of known size
    def mat(self, v, t='', ndim=None):
        """v as ('mat', rows, columns, row-major coefficients) or None."""
        k = v[0]
        if k == 'mat':
            return v
        if k == 'list':
            return ('mat', len(v[1]), 1, v[1])
        if k == 'upd':
            m = self.mat(v[1], t)
            i = mat_pos(m, v[2]) if m is not None else None
            if i is not None:
                return ('mat', m[1], m[2], m[3][:i] + (v[3], ) + m[3][i + 1:])
        if k == 'comma':
            return self.mat(v[1], t)
        if k == 'ite':
            a, b = self.mat(v[2], t), self.mat(v[3], t)
            if a and b and a[1:3] == b[1:3]:
                return self.mergev(v[1], a, b)
            return None
        d = None
        if k in ('eigen', 'efill'):
            n = [const(x) for x in v[2:]]
            if n and all(x is not None for x in n):
                d = (int(n[0]), int(n[1]) if len(n) > 1 else 1)
            elif not n:
                d = eig_static(v[1] if k == 'eigen' else t)
        if d is None and t:
            d = eig_static(t)
        if d is None or d[0] * d[1] > 4096:
            return None
        r, c = d
        if k in ('efill', 'fill'):
            return ('mat', r, c, (v[1], ) * (r * c))
        vec = c == 1 or r == 1
        return ('mat', r, c, tuple(
            self.select(v, ('i', num(i * c + j)) if vec else
                        ('i', num(i), num(j)))
            for i in range(r) for j in range(c)))

    @staticmethod
    def view_cells(m, idx):
        """Cells (rows, columns) a view of a matrix designates."""
        R, C = m[1], m[2]
        name = idx[0]
        n = [const(x) for x in idx[1:]]
        if any(x is None for x in n):
            return None
        n = [int(x) for x in n]
        rows, cols = list(range(R)), list(range(C))
        if name == 'row':
            rows = [n[0]]
        elif name == 'col':
            cols = [n[0]]
        elif name in ('head', 'tail', 'segment', 'topRows', 'bottomRows',
                      'leftCols', 'rightCols', 'middleRows'):
            dim = R if name.endswith('Rows') or (
                not name.endswith('Cols') and C == 1) else C
            lo, k = {'head': (0, n[-1]), 'tail': (dim - n[-1], n[-1]),
                     'topRows': (0, n[-1]), 'bottomRows': (dim - n[-1], n[-1]),
                     'leftCols': (0, n[-1]), 'rightCols': (dim - n[-1], n[-1]),
                     'segment': (n[0], n[-1]), 'middleRows': (n[0], n[-1])
                     }[name]
            if lo < 0 or lo + k > dim:
                return None
            if name.endswith('Rows') or (not name.endswith('Cols') and
                                         C == 1):
                rows = rows[lo:lo + k]
            else:
                cols = cols[lo:lo + k]
        elif name == 'block' and len(n) == 4:
            rows = rows[n[0]:n[0] + n[2]]
            cols = cols[n[1]:n[1] + n[3]]
        else:
            return None
        if any(not 0 <= r < R for r in rows) or \
                any(not 0 <= c < C for c in cols):
            return None
        return rows, cols

    def view(self, v, idx):
        m = self.mat(v) if v[0] in ('mat', 'list', 'upd', 'comma', 'ite',
                                    'eigen', 'efill') else None
        if m is not None:
            if idx[0] == 'transpose':
                return ('mat', m[2], m[1], tuple(
                    m[3][r * m[2] + c] for c in range(m[2])
                    for r in range(m[1])))
            if idx[0] in ('real', 'imag'):
                return ('mat', m[1], m[2], tuple(
                    re_im(idx[0], x) for x in m[3]))
            q = self.view_cells(m, idx)
            if q is not None:
                rows, cols = q
                return ('mat', len(rows), len(cols), tuple(
                    m[3][r * m[2] + c] for r in rows for c in cols))
        return ('at', v) + idx

    def view_update(self, v, idx, nv):
        m = self.mat(v) if v[0] in ('mat', 'list', 'upd', 'comma', 'ite',
                                    'eigen', 'efill') else None
        if m is not None and idx[0] in ('real', 'imag') and len(idx) == 1:
            n = len(m[3])
            x = ('mat', 0, 0, (nv[1], ) * n) if nv[0] in (
                'fill', 'efill') else self.mat(nv)
            if x is None or len(x[3]) != n:
                return None
            part = lambda w, i: x[3][i] if w == idx[0] else \
                re_im(w, m[3][i])
            return ('mat', m[1], m[2], tuple(
                cplx(part('real', i), part('imag', i)) for i in range(n)))
        q = self.view_cells(m, idx) if m is not None else None
        if q is None:
            return None
        cells = [(r, c) for r in q[0] for c in q[1]]
        if nv[0] in ('fill', 'efill'):
            new = (nv[1], ) * len(cells)
        else:
            x = self.mat(nv)
            if x is None or len(x[3]) != len(cells):
                return None
            new = x[3]
        d = list(m[3])
        for (r, c), x in zip(cells, new):
            d[r * m[2] + c] = x
        return ('mat', m[1], m[2], tuple(d))

    def matop(self, op, x, y, arr=False, t='double'):
        """Operation between matrices of known size, or None."""
        whole = ('mat', 'comma', 'efill', 'eigen', 'upd')
        x = self.mat(x) or x if x[0] in whole else x
        y = self.mat(y) or y if y[0] in whole else y
        if x is None or y is None:
            return None
        mx, my = x[0] == 'mat', y[0] == 'mat'
        if not mx and not my:
            return None
        if mx != my:
            if op not in ('*', '/') and not arr:
                return None
            m = x if mx else y
            return ('mat', m[1], m[2], tuple(
                self.arith(op, z, y, t) if mx else self.arith(op, x, z, t)
                for z in m[3]))
        if op == '*' and not arr:
            if x[2] != y[1]:
                return None
            return ('mat', x[1], y[2], tuple(
                add(ZERO, *[mul(x[3][i * x[2] + k], y[3][k * y[2] + j])
                            for k in range(x[2])])
                for i in range(x[1]) for j in range(y[2])))
        if x[1:3] != y[1:3] and not (len(x[3]) == len(y[3]) and
                                     1 in x[1:3] and 1 in y[1:3]):
            return None
        return ('mat', x[1], x[2], tuple(
            self.arith(op, p, q, t) for p, q in zip(x[3], y[3])))

    def update(self, v, steps, new):
        if not steps:
            return new
        s = steps[0]
        child = self.select(v, s) if len(steps) > 1 else None
        nv = self.update(child, steps[1:], new) if len(steps) > 1 else new
        if s[0] == 'f':
            if v[0] == 'list' and s[1] in PAIR and len(v[1]) == 2:
                l = list(v[1])
                l[PAIR[s[1]]] = nv
                return ('list', tuple(l))
            if v[0] == 'agg':
                return ('agg', v[1], v[2],
                        tuple(sorted([(n, x) for n, x in v[3] if n != s[1]] +
                                     [(s[1], nv)])))
            return ('agg', '', v, ((s[1], nv), ))
        idx = s[1:]
        if idx and isinstance(idx[0], str):
            r = self.view_update(v, idx, nv)
            return r if r is not None else ('upd', v, idx, nv)
        if v[0] == 'mat':
            k = mat_pos(v, idx)
            if k is not None:
                return ('mat', v[1], v[2], v[3][:k] + (nv, ) + v[3][k + 1:])
        if v[0] == 'list' and len(idx) == 1:
            c = const(idx[0])
            if c is not None and 0 <= c < len(v[1]):
                i = int(c)
                return ('list', v[1][:i] + (nv, ) + v[1][i + 1:])
        if v[0] == 'upd' and v[2] == idx:
            return ('upd', v[1], idx, nv)
        return ('upd', v, idx, nv)

    def read(self, st, p):
        if p[0] == 'ite':
            return ite(p[1], self.read(st, p[2]), self.read(st, p[3]))
        root, steps = p
        v = self._rootval(st, root)
        for s in steps:
            v = self.select(v, s)
        return v

    def _rootval(self, st, root):
        v = st.store.get(root)
        if v is None:
            if root[0] == 'sub':
                return self.read(st, root[1])
            v = self.root_init(root)
        return v

    def write(self, st, p, val, fr=None, line=0):
        if p[0] == 'ite':
            a, b = p[2], p[3]
            self.write(st, a, ite(p[1], val, self.read(st, a)), fr, line)
            self.write(st, b, ite(p[1], self.read(st, b), val), fr, line)
            return
        root, steps = p
        if root[0] != 'loc':
            self.event('write', st, (p, val), fr, line)
        if not steps:
            st.store[root] = val
            return
        st.store[root] = self.update(self._rootval(st, root), steps, val)

    @staticmethod
    def ext(p, step):
        if p[0] == 'ite':
            return ('ite', p[1], Engine.ext(p[2], step), Engine.ext(p[3], step))
        return (p[0], p[1] + (step, ))

    def ptr(self, p):
        """The pointer value designating a path."""
        if p[0] == 'ite':
            return ite(p[1], self.ptr(p[2]), self.ptr(p[3]))
        if p[0][0] == 'mem' and not p[1]:
            return p[0][1]
        return ('ptr', p[0], p[1])

    def deref(self, v):
        if v[0] == 'ptr':
            return (v[1], v[2])
        if v[0] == 'ite':
            if v[2] == NULL:
                return self.deref(v[3])
            if v[3] == NULL:
                return self.deref(v[2])
            return ('ite', v[1], self.deref(v[2]), self.deref(v[3]))
        if v[0] in ('it', 'data'):
            return self.ext(self.deref(v[1]), ('i', v[2]))
        if v[0] == 'some':
            loc = ('tmp', v)
            return (loc, ())
        return (('mem', v), ())

    # ---------------------------------------------------------------- events
    def event(self, kind, st, data, fr, line):
        f = fr.fn if fr else None
        self.events.append(Event(kind, st.pc, data, f['file'] if f else '?',
                                 line, f['n'] if f else '?',
                                 tuple(self.loops)))

    # ------------------------------------------------------------ statements
    def assume(self, st, c):
        if c == TRUE:
            return
        if c == FALSE:
            st.dead = True
            return
        lits = c[1:] if c[0] == 'and' else (c, )
        new = tuple(l for l in lits if l not in st.pc)
        if any(lnot(l) in st.pc for l in new):
            st.dead = True
        st.pc = st.pc + new

    def simp(self, st, c):
        if c[0] in ('bool', ):
            return c
        if c in st.pc:
            return TRUE
        if lnot(c) in st.pc:
            return FALSE
        if c[0] == 'and':
            return land(*[self.simp(st, x) for x in c[1:]])
        if c[0] == 'or':
            return lor(*[self.simp(st, x) for x in c[1:]])
        if c[0] == 'not':
            return lnot(self.simp(st, c[1]))
        if c[0] in ('lt', 'le', 'eq') and len(c) == 3:
            r = decide(st.pc, c)
            if r is not None:
                return ('bool', r)
        return c

    def merge(self, c, a, b, base):
        """Join of two states after a branch on c (either may be dead/None)."""
        if a is None or a.dead:
            return b
        if b is None or b.dead:
            return a
        st = State({}, base)
        for r in set(a.store) | set(b.store):
            # a location only one of the paths has allocated exists on that
            # path alone
            if r[0] == 'loc' and (r not in a.store or r not in b.store):
                st.store[r] = a.store[r] if r in a.store else b.store[r]
                continue
            x, y = self._rootval(a, r), self._rootval(b, r)
            st.store[r] = self.mergev(c, x, y)
        return st

    def mergev(self, c, x, y):
        if x == y:
            return x
        if x[0] == 'agg' or y[0] == 'agg':
            bx = x[2] if x[0] == 'agg' else x
            by = y[2] if y[0] == 'agg' else y
            if bx == by:
                names = {n for n, _ in (x[3] if x[0] == 'agg' else ())} | {
                    n for n, _ in (y[3] if y[0] == 'agg' else ())
                }
                fs = tuple(sorted((n, self.mergev(
                    c, self.select(x, ('f', n)), self.select(y, ('f', n))))
                                  for n in names))
                return ('agg', x[1] if x[0] == 'agg' else y[1], bx, fs)
        if x[0] == 'list' and y[0] == 'list' and len(x[1]) == len(y[1]):
            return ('list', tuple(self.mergev(c, p, q)
                                  for p, q in zip(x[1], y[1])))
        if x[0] == 'mat' and y[0] == 'mat' and x[1:3] == y[1:3]:
            return ('mat', x[1], x[2], tuple(
                p if p is q or p == q else self.mergev(c, p, q)
                for p, q in zip(x[3], y[3])))
        if x[0] == 'upd' and y[0] == 'upd' and x[1] == y[1] and x[2] == y[2]:
            return ('upd', x[1], x[2], self.mergev(c, x[3], y[3]))
        if x[0] == 'upd' and x[1] == y:
            return ('upd', y, x[2], self.mergev(c, x[3], self.select(
                y, ('i', ) + x[2])))
        if y[0] == 'upd' and y[1] == x:
            return ('upd', x, y[2], self.mergev(c, self.select(
                x, ('i', ) + y[2]), y[3]))
        if x[0] == 'undef':
            return ('ite', c, x, y) if y[0] != 'undef' else x
        return ite(c, x, y)

    def block(self, ss, st, fr):
        for s in ss:
            if st is None or st.dead:
                return None
            st = self.stmt(s, st, fr)
        return st

    def rel_exit_guard(self, fr, n0, base):
        """Disjunction of the guards of the exits recorded since n0, relative
        to the condition list `base`."""
        gs = []
        for e in fr.exits[n0:]:
            gs.append(land(*[l for l in e[1] if l not in base]))
        return lor(*gs) if gs else FALSE

    def branch(self, c, st, fr, fa, fb):
        """Evaluate fa / fb under c / not c and join."""
        c = self.simp(st, c)
        bv = T.boolval(c)
        if bv is True:
            return fa(st)
        if bv is False:
            return fb(st)
        base = st.pc
        n0 = len(fr.exits)
        a = st.clone()
        self.assume(a, c)
        b = st.clone()
        self.assume(b, lnot(c))
        ra = None if a.dead else fa(a)
        rb = None if b.dead else fb(b)
        if ra is not None and ra.dead:
            ra = None
        if rb is not None and rb.dead:
            rb = None
        if ra is None and rb is None:
            return None
        if ra is None:
            return rb
        if rb is None:
            return ra
        out = self.merge(c, ra, rb, base)
        if len(fr.exits) > n0:
            g = self.rel_exit_guard(fr, n0, base)
            self.assume(out, lnot(g))
            out.dead = False
        else:
            # conditions both arms share survive the join
            extra = tuple(l for l in ra.pc[len(base):]
                          if l in rb.pc[len(base):])
            out.pc = out.pc + extra
        return out

    def stmt(self, s, st, fr):
        if s is None:
            return st
        k = s['k']
        if k == 'block':
            return self.block(s['s'], st, fr)
        if k == 'expr':
            e = s['e']
            self.ev(e, st, fr)
            return None if st.dead else st
        if k == 'decl':
            for v in s['v']:
                self.decl(v, st, fr)
                if st.dead:
                    return None
            return st
        if k == 'if':
            if s.get('init'):
                st = self.stmt(s['init'], st, fr)
            if s.get('cv'):
                self.decl(s['cv'], st, fr)
            c = self.cond(s['c'], st, fr)
            if st.dead:
                return None
            return self.branch(c, st, fr, lambda x: self.stmt(s['a'], x, fr),
                               lambda x: self.stmt(s.get('b'), x, fr))
        if k == 'return':
            e = s['e']
            if e is None:
                v = VOID
            else:
                v = self.retval(e, st, fr)
            if st.dead:
                return None
            fr.exits.append(('return', st.pc, v, st.store, s.get('l', 0)))
            return None
        if k in ('break', 'continue'):
            fr.exits.append((k, st.pc, VOID, st.store, s.get('l', 0)))
            return None
        if k == 'null':
            return st
        if k == 'for':
            st = self.stmt(s['init'], st, fr)
            return self.loop(s, st, fr, s['c'],
                             lambda x: self.stmt(s['b'], x, fr),
                             (lambda x: self.ev(s['inc'], x, fr))
                             if s['inc'] else None)
        if k == 'while':
            return self.loop(s, st, fr, s['c'],
                             lambda x: self.stmt(s['b'], x, fr), None)
        if k == 'do':
            # body once, then a while loop
            def body(x):
                return self.stmt(s['b'], x, fr)
            st = self.run_body(body, st, fr)
            if st is None:
                return None
            return self.loop(s, st, fr, s['c'], body, None)
        if k == 'rangefor':
            return self.rangefor(s, st, fr)
        if k == 'switch':
            return self.switch(s, st, fr)
        if k == 'try':
            return self.trys(s, st, fr)
        if k in ('case', 'default'):
            return self.stmt(s['s'], st, fr)
        self.unknown.add(k + ':' + s.get('cls', ''))
        return st

    def retval(self, e, st, fr):
        rt = fr.fn.get('ret', '') if fr.fn else ''
        if rt.rstrip().endswith('&') and e.get('lv'):
            return ('ref', self.ptr(self.lv(e, st, fr)))
        return self.ev(e, st, fr)

    def decl(self, v, st, fr):
        d = v['d']
        init = v.get('init')
        if v.get('static') and not v['ref']:
            self.static(v, st, fr)
            return
        if v.get('bind') is not None:
            val = self.ev(init, st, fr) if init else ('undef', '')
            if v['ref'] and init and init.get('lv'):
                p = self.lv(init, st, fr)
            else:
                loc = self.newloc('bind')
                st.store[loc] = val
                p = (loc, ())
            tup = val[0] == 'list' or 'tuple' in init.get('t', '') or \
                'pair' in init.get('t', '') or 'array' in init.get('t', '')
            for i, b in enumerate(v['bind']):
                step = ('i', num(i))
                if not tup:
                    r = self.F.rec.get(bare(init.get('t', '')))
                    if r and i < len(r.get('fields', [])):
                        step = ('f', r['fields'][i]['n'])
                bp = self.ext(p, step)
                fr.env[b['d']] = bp
                if 'hold' in b:
                    fr.env[b['hold']] = bp
            return
        if v['ref']:
            if init is None:
                fr.env[d] = (self.newloc(v['n']), ())
                return
            if init.get('lv'):
                fr.env[d] = self.lv(init, st, fr)
            else:
                val = self.ev(init, st, fr)
                loc = self.newloc(v['n'])
                st.store[loc] = val
                fr.env[d] = (loc, ())
            return
        loc = self.newloc(v['n'])
        fr.env[d] = (loc, ())
        if init is not None:
            t = v.get('t', '')
            val = self.ev(init, st, fr, into=(loc, ()))
            if init.get('k') == 'init' and init.get('cls') is None and \
                    val[0] == 'list' and '[' not in t and len(val[1]) <= 1 and (
                        is_int(t) or is_float(t) or t.endswith('*')):
                val = val[1][0] if val[1] else ZERO
            st.store[loc] = val
        else:
            st.store[loc] = ('undef', v['n'])

    def static(self, v, st, fr):
        """A variable that lives on from one call to the next: unless it is
        a constant, earlier calls may have left anything in it."""
        g = self.F.globals.get((fr.tu, v['d'])) or {}
        root = ('glob', g.get('n', v['n']), (fr.tu, v['d']))
        fr.env[v['d']] = (root, ())
        self.statics.add((fr.fn.get('n', ''), v['n']))
        init = v.get('init')
        t = v.get('t', '')
        if init is not None and ('const' in t.replace('const char *', '') or
                                 t.startswith('const ') or
                                 '(lambda' in t):
            val = self.ev(init, st, fr, into=(root, ()))
            if open_value(val):
                val = ('obj', 'first value of ' + v['n'])
        else:
            self.nloc += 1
            val = ('obj', f'earlier value of {v["n"]} #{self.nloc}')
        st.store[root] = val

    def switch(self, s, st, fr):
        c = self.ev(s['c'], st, fr)
        if st.dead:
            return None
        body = s['b']
        stmts = body['s'] if body and body['k'] == 'block' else [body]
        segs = []  # (labels|None, [stmts])

        def unwrap(x):
            labels = []
            while x and x['k'] in ('case', 'default'):
                labels.append(x['e'] if x['k'] == 'case' else None)
                x = x['s']
            return labels, x

        for x in stmts:
            labels, y = unwrap(x)
            if labels:
                segs.append((labels, [y] if y else []))
            elif segs:
                segs[-1][1].append(x)
            elif x and x['k'] == 'decl':
                self.stmt(x, st, fr)
        conds = []
        allc = []
        for labels, _ in segs:
            cs = []
            for l in labels:
                if l is None:
                    cs.append(None)
                else:
                    q = cmp('==', c, self.ev(l, st, fr))
                    cs.append(q)
                    allc.append(q)
            conds.append(cs)

        def run(i, x):
            """Execute from segment i until a break."""
            n0 = len(fr.exits)
            base = x.pc
            for j in range(i, len(segs)):
                x = self.block(segs[j][1], x, fr)
                if x is None:
                    break
            return self.join_exits(x, fr, n0, base, ('break', ))

        default = [i for i, cs in enumerate(conds) if None in cs]

        def chain(i, x):
            if i == len(segs):
                if default:
                    return run(default[0], x)
                return x
            cs = [q for q in conds[i] if q is not None]
            if not cs or i in default and all(q is None for q in conds[i]):
                return chain(i + 1, x)
            return self.branch(lor(*cs), x, fr, lambda y: run(i, y),
                               lambda y: chain(i + 1, y))

        return chain(0, st)

    def join_exits(self, x, fr, n0, base, kinds):
        """Turn the exits of the given kinds recorded since n0 into states and
        join them with the fall-through state x."""
        mine = [e for e in fr.exits[n0:] if e[0] in kinds]
        if not mine:
            return x
        fr.exits[n0:] = [e for e in fr.exits[n0:] if e[0] not in kinds]
        out = x
        for e in reversed(mine):
            g = land(*[l for l in e[1] if l not in base])
            y = State(dict(e[3]), e[1])
            if out is None or out.dead:
                out = y
            else:
                out = self.merge(g, y, out, base)
        others = self.rel_exit_guard(fr, n0, base)
        if out is not None:
            out.pc = base
            if len(mine) == 1 and x is None and others == FALSE:
                out.pc = mine[0][1]
            elif others != FALSE:
                self.assume(out, lnot(others))
                out.dead = False
        return out

    def run_body(self, body, st, fr):
        n0 = len(fr.exits)
        base = st.pc
        x = body(st)
        return self.join_exits(x, fr, n0, base, ('continue', ))

    def trys(self, s, st, fr):
        n0 = len(fr.exits)
        base = st.pc
        self.tryn += 1
        exc = ('exc', self.tryn)
        start = st.clone()
        outer, self.opaque_n = self.opaque_n, 0
        out = self.stmt(s['b'], st, fr)
        closed = self.opaque_n == 0
        self.opaque_n += outer
        thrown = [e for e in fr.exits[n0:] if e[0] == 'throw']
        mine, rest = [], []
        for e in fr.exits[n0:]:
            if e[0] == 'throw' and any(
                    h['t'] == '...' or catches(h['t'], e[2]) for h in s['h']):
                mine.append(e)
            else:
                rest.append(e)
        fr.exits[n0:] = rest
        taken = []
        for h in s['h']:
            caught = [e for e in mine if e not in taken and
                      (h['t'] == '...' or catches(h['t'], e[2]))]
            taken += caught
            if closed:
                # everything the block calls is known: it raises exactly the
                # exceptions found
                if not caught:
                    continue
                exc = lor(*[land(*[l for l in e[1] if l not in base])
                            for e in caught])
                hs = State(dict(caught[-1][3]), base)
                self.assume(hs, exc)
                caught, n = caught[:-1], len(caught)
            else:
                hs = State(dict(start.store), base + (exc, ))
                n = len(caught)
            for e in reversed(caught):
                g = land(*[l for l in e[1] if l not in base])
                hs = self.merge(g, State(dict(e[3]), base), hs, hs.pc)
            if h.get('d'):
                loc = self.newloc('exception')
                hs.store[loc] = ('exception', h['t'])
                fr.env[h['d']] = (loc, ())
            self.event('catch', hs, (h['t'], n), fr, h.get('l', 0))
            r = self.stmt(h['b'], hs, fr)
            if r is not None and not r.dead:
                if out is None or out.dead:
                    out = r
                else:
                    out = self.merge(exc, r, out, base)
        return out

    # ------------------------------------------------------------------ loops
    def cond(self, e, st, fr):
        return self.truth(self.ev(e, st, fr), e)

    def truth(self, v, e=None):
        if v[0] in ('bool', 'and', 'or', 'not', 'lt', 'le', 'eq', 'isnan'):
            return v
        c = const(v)
        if c is not None:
            return ('bool', c != 0)
        if v[0] == 'ptr' or v[0] == 'new':
            return TRUE
        if v == NULL:
            return FALSE
        if v[0] == 'some':
            return TRUE
        if v[0] == 'none':
            return FALSE
        if v[0] == 'ite':
            return ite(v[1], self.truth(v[2]), self.truth(v[3]))
        t = (e or {}).get('t', '')
        if is_int(t) and bare(t) != 'bool':
            return cmp('!=', v, ZERO)
        return v

    def loop(self, s, st, fr, ce, body, inc):
        if st is None:
            return None

        def condf(x):
            if ce is None:
                return TRUE
            return self.simp(x, self.cond(ce, x, fr))

        return self.genloop(s, st, fr, condf, body, inc)

    def genloop(self, s, st, fr, condf, body, inc):
        # 1. unrolling with constant conditions
        saved = st.clone()
        nev, nex = len(self.events), len(fr.exits)
        nloc = self.nloc
        base = st.pc
        x = st
        ok = False
        it = 0
        brk = []
        while it < UNROLL:
            c = condf(x)
            if x.dead:
                ok = True
                break
            b = T.boolval(c)
            if b is None:
                break
            if b is False:
                ok = True
                break
            n0 = len(fr.exits)
            r = self.run_body(body, x, fr)
            here = [e for e in fr.exits[n0:] if e[0] == 'break']
            if here:
                fr.exits[n0:] = [e for e in fr.exits[n0:] if e[0] != 'break']
                brk += here
            if r is None or r.dead:
                x = None
                ok = True
                break
            x = r
            if here:
                g = lor(*[land(*[l for l in e[1] if l not in base])
                          for e in here])
                self.assume(x, lnot(g))
                if x.dead:
                    x = None
                    ok = True
                    break
            if inc:
                inc(x)
            it += 1
        if ok:
            out = x
            for e in reversed(brk):
                g = land(*[l for l in e[1] if l not in base])
                y = State(dict(e[3]), e[1])
                out = y if (out is None or out.dead) else self.merge(
                    g, y, out, base)
            if out is not None and len(fr.exits) > nex and brk:
                out.pc = base
                self.assume(out, lnot(self.rel_exit_guard(fr, nex, base)))
                out.dead = False
            return out
        # 2. symbolic summary
        del self.events[nev:]
        del fr.exits[nex:]
        return self.symloop(s, saved, fr, condf, body, inc)

    def diff(self, a, b, steps=()):
        """Paths below a root at which two values differ."""
        if a == b:
            return []
        if (a[0] == 'agg' or b[0] == 'agg'):
            ba = a[2] if a[0] == 'agg' else a
            bb = b[2] if b[0] == 'agg' else b
            if ba == bb:
                out = []
                names = {n for n, _ in (a[3] if a[0] == 'agg' else ())} | {
                    n for n, _ in (b[3] if b[0] == 'agg' else ())
                }
                for n in sorted(names):
                    out += self.diff(self.select(a, ('f', n)),
                                     self.select(b, ('f', n)),
                                     steps + (('f', n), ))
                return out
        return [steps]

    def symloop(self, s, st, fr, condf, body, inc):
        self.loopdepth += 1
        depth = self.loopdepth
        base = st.pc
        written = []
        line = s.get('l', 0)
        try:
            for _ in range(8):
                nev, nex = len(self.events), len(fr.exits)
                x = st.clone()
                lvs = {}
                for (root, steps) in written:
                    lv = ('lv', depth, len(lvs))
                    lvs[lv] = (root, steps)
                    x.store[root] = self.update(self._rootval(x, root), steps,
                                                lv)
                x0 = x.clone()
                idx = ('bv', depth)
                self.loops.append(idx)
                c = condf(x)
                x.pc = base
                self.assume(x, c)
                x.dead = False
                start_pc = x.pc
                n0 = len(fr.exits)
                r = self.run_body(body, x, fr)
                if r is not None and not r.dead and inc:
                    inc(r)
                self.loops.pop()
                stores = []
                if r is not None and not r.dead:
                    stores.append(r.store)
                stores += [e[3] for e in fr.exits[n0:]]
                new = []
                for q in stores:
                    for root in q:
                        if root not in x0.store:
                            v0 = None
                            if root[0] == 'loc':
                                continue
                            v0 = self.root_init(root)
                        else:
                            v0 = x0.store[root]
                        for steps in self.diff(v0, q[root]):
                            if not any(root == a and steps[:len(b)] == b
                                       for a, b in written) and \
                                    (root, steps) not in new:
                                new.append((root, steps))
                if not new:
                    break
                written = [w for w in written if not any(
                    w[0] == a and w[1][:len(b)] == b for a, b in new)] + new
                del self.events[nev:]
                del fr.exits[nex:]
            else:
                raise AnalysisError(f'loop at {fr.fn["file"]}:{line} does not '
                                    'stabilise')
            return self.summarise(s, st, fr, depth, lvs, c, r, nev, n0,
                                  start_pc, base)
        finally:
            self.loopdepth -= 1

    def summarise(self, s, st, fr, depth, lvs, c, r, nev, n0, start_pc, base):
        idx = ('bv', depth)
        init = {lv: self.read(st, p) for lv, p in lvs.items()}
        nxt = {}
        if r is not None and not r.dead:
            nxt = {lv: self.read(r, p) for lv, p in lvs.items()}
        lvset = set(lvs)

        def dep(t):
            return {x for x in T.walk(t) if x in lvset}

        # induction variables
        ind = {}
        for lv, t in nxt.items():
            step = None
            if t[0] == 'it' and lv[0] == 'lv':
                continue
            d = sub(t, lv) if t[0] not in ('agg', 'list', 'upd') else None
            if d is not None and const(d) not in (None, 0):
                ind[lv] = (init[lv], const(d))
                continue
            # iterators: next = itnext(lv)
            if t == ('itnext', lv) and init[lv][0] == 'it':
                ind[lv] = (init[lv], 1)

        def ivalue(lv):
            i0, k = ind[lv]
            if i0[0] == 'it':
                return ('it', i0[1], add(i0[2], mul(num(k), idx)))
            return add(i0, mul(num(k), idx))

        def repl(t):
            return T.subst(t, lambda y: ivalue(y) if y in ind else None)

        # the trip count
        n = None
        cc = c
        extra = []
        lits = list(c[1:]) if c[0] == 'and' else [c]
        for l in lits:
            if n is None:
                m = self.trip(l, ind, dep)
                if m is not None:
                    n = m
                    continue
            extra.append(l)
        if n is None:
            n = ('while', repl(c))
        elif extra:
            n = ('whilemin', n, repl(land(*extra)))
        cnt = self.positive(n)

        def close(t):
            return T.subst(repl(t), itnorm)

        nextc = {lv: close(t) for lv, t in nxt.items() if lv not in ind}
        final = {}
        for lv in lvs:
            if lv in ind:
                i0, k = ind[lv]
                if n[0] in ('while', 'whilemin'):
                    final[lv] = (('it', i0[1], add(i0[2], ('trips', n)))
                                 if i0[0] == 'it' else add(
                                     i0, mul(num(k), ('trips', n))))
                elif i0[0] == 'it':
                    final[lv] = ('it', i0[1], add(i0[2], mul(num(k), cnt)))
                else:
                    final[lv] = add(i0, mul(num(k), cnt))
                continue
            if lv not in nextc:
                final[lv] = init[lv]
                continue
            t = nextc[lv]
            ds = dep(t)
            acc = ('acc', depth)
            if not ds:
                if idx not in set(T.walk(t)):
                    final[lv] = ite(cmp('<', ZERO, cnt), t, init[lv])
                else:
                    last = sub(cnt, ONE)
                    final[lv] = ite(
                        cmp('<', ZERO, cnt),
                        T.subst(t, lambda y: last if y == idx else None),
                        init[lv])
            elif ds == {lv}:
                g = sub(t, lv) if t[0] not in ('agg', 'list', 'upd', 'ite',
                                               'append') else None
                if g is not None and lv not in set(T.walk(g)):
                    final[lv] = add(init[lv], ('sum', n, g))
                else:
                    final[lv] = ('iter', init[lv], n,
                                 T.subst(t, lambda y: acc if y == lv else None))
            else:
                group = sorted(self.closure(lv, nextc, dep), key=str)
                sub_ = {g: ('acc', depth, i) for i, g in enumerate(group)}
                final[lv] = ('itern', group.index(lv), n,
                             tuple(init[g] for g in group),
                             tuple(T.subst(nextc[g], lambda y: sub_.get(y))
                                   for g in group))
        # exits raised by the body
        mapping = dict(final)

        def inloop(t):
            """A term of the body seen from outside the iteration."""
            t = close(t)

            def f(y):
                if y in lvset:
                    v = final.get(y)
                    return ('atiter', v, idx) if y in nextc and dep(
                        nextc[y]) else ('cur', init[y], nextc.get(y, init[y]),
                                        idx)
                return None

            return T.subst(t, f)

        out = st.clone()
        exits = fr.exits[n0:]
        del fr.exits[n0:]
        guards = []
        pend = []
        for (kind, pc, val, store, ln) in exits:
            g = land(*[inloop(l) for l in pc if l not in start_pc])
            anyg = ('any', n, g)
            first = ('first', n, g)

            def fst(t, first=first):
                return T.subst(inloop(t),
                               lambda y: first if y == idx else None)

            est = dict(st.store)
            for lv, (root, steps) in lvs.items():
                q = State(dict(store))
                v = fst(self.read(q, (root, steps)))
                est[root] = self.update(
                    est.get(root, self.root_init(root)), steps, v)
            for root, v in store.items():
                if root not in est and root[0] == 'loc':
                    est[root] = fst(v)
            pend.append((kind, anyg, fst(val) if val != VOID else VOID, est, ln))
        for lv, (root, steps) in lvs.items():
            out.store[root] = self.update(self._rootval(out, root), steps,
                                          final[lv])
        for (kind, anyg, val, est, ln) in pend:
            if kind == 'break':
                continue
            fr.exits.append((kind, base + tuple(
                lnot(g) for g in guards) + (anyg, ), val, est, ln))
            guards.append(anyg)
        if r is None and c == TRUE and not any(p[0] == 'break' for p in pend):
            return None
        out.pc = base
        for (kind, anyg, val, est, ln) in reversed(pend):
            if kind == 'break':
                out = self.merge(anyg, State(est, base), out, base)
        for g in guards:
            self.assume(out, lnot(g))
        out.dead = False
        # events of the body
        for e in self.events[nev:]:
            if idx in e.loops:
                e.pc = tuple(inloop(l) for l in e.pc)
                e.data = subst_any(e.data, inloop)
                e.loops = tuple((l, n) if l == idx else l for l in e.loops)
        return out

    def closure(self, lv, nextc, dep):
        seen, work = set(), [lv]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            work += list(dep(nextc.get(x, ZERO)))
        return seen

    def trip(self, l, ind, dep):
        """Trip count of a loop controlled by literal l, or None."""
        neg_ = l[0] == 'not'
        q = l[1] if neg_ else l
        if q[0] == 'eq' and neg_ and len(q) == 3:
            for a, b in ((q[1], q[2]), (q[2], q[1])):
                if a in ind and not dep(b):
                    i0, k = ind[a]
                    if i0[0] == 'it':
                        return sub(b[2], i0[2]) if b[0] == 'it' else None
                    if abs(k) == 1:
                        return mul(num(k), sub(b, i0))
                ia = itidx(a)
                if ia in ind and not dep(b):
                    i0, k = ind[ia]
                    if k == 1 and i0[0] == 'it':
                        return sub(b, i0[2])
            # polynomial form: eq of (lv + c) and b
            for lv in ind:
                d = sub(q[1], q[2])
                co = lin(d, lv)
                if co is not None and abs(co[0]) == 1 and not dep(co[1]):
                    i0, k = ind[lv]
                    if i0[0] == 'it':
                        continue
                    if abs(k) == 1:
                        bound = mul(num(-co[0]), co[1])
                        return mul(num(k), sub(bound, i0))
            return None
        strict = None
        if q[0] in ('lt', 'le') and len(q) == 3:
            a, b = q[1], q[2]
            strict = q[0] == 'lt'
            if neg_:
                a, b, strict = b, a, not strict
            d = sub(b, a)  # loop while d > 0 (strict) or d >= 0
            for lv in ind:
                i0, k = ind[lv]
                if i0[0] == 'it':
                    continue
                co = lin(d, lv)
                if co is None or dep(co[1]):
                    continue
                d0 = add(mul(num(co[0]), i0), co[1])
                stepd = co[0] * k
                if stepd == -1:
                    return d0 if strict else add(d0, ONE)
                if stepd < 0:
                    return app('ceil', div(d0 if strict else add(d0, ONE),
                                           num(-stepd)))
        return None

    def positive(self, n):
        c = const(n)
        if c is not None:
            return num(max(c, 0))
        if n[0] in ('while', 'whilemin'):
            return ('trips', n)
        return n

    def rangefor(self, s, st, fr):
        r = s['r']
        v = s['var']
        if s.get('pre'):
            for x in s['pre']:
                st = self.stmt(x, st, fr)
                if st is None or st.dead:
                    return None

            def full(x):
                x = self.stmt(s['lv'], x, fr)
                return None if x is None else self.stmt(s['b'], x, fr)
            return self.loop(s, st, fr, s['c'], full,
                             lambda x: self.ev(s['inc'], x, fr))
        if r.get('lv'):
            p = self.lv(r, st, fr)
            val = self.read(st, p)
        else:
            val = self.ev(r, st, fr)
            loc = self.newloc('range')
            st.store[loc] = val
            p = (loc, ())
        if st.dead:
            return None
        counter = self.newloc('#i')
        st.store[counter] = ZERO
        size = self.size_of(val)

        def condf(x):
            return self.simp(x, cmp('<', x.store[counter], size))

        def body(x):
            ep = self.ext(p, ('i', x.store[counter]))
            self.bindvar(v, ep, x, fr)
            return self.stmt(s['b'], x, fr)

        def inc(x):
            x.store[counter] = add(x.store[counter], ONE)

        return self.genloop(s, st, fr, condf, body, inc)

    def bindvar(self, v, path, st, fr):
        if v.get('bind') is not None:
            q = path
            if not v['ref']:
                loc = self.newloc(v['n'])
                st.store[loc] = self.read(st, path)
                q = (loc, ())
            for i, b in enumerate(v['bind']):
                fr.env[b['d']] = self.ext(q, ('i', num(i)))
                if 'hold' in b:
                    fr.env[b['hold']] = fr.env[b['d']]
            return
        if v['ref']:
            fr.env[v['d']] = path
        else:
            loc = self.newloc(v['n'])
            st.store[loc] = self.read(st, path)
            fr.env[v['d']] = (loc, ())

    def size_of(self, v):
        if v[0] == 'list':
            return num(len(v[1]))
        if v[0] == 'append':
            return add(self.size_of(v[1]), ONE)
        if v[0] == 'upd':
            return self.size_of(v[1])
        if v[0] == 'str':
            return num(len(v[1]))
        if v[0] == 'bytes':
            return num(sum(n for _, n, _ in v[1]))
        if v[0] == 'ite' and (self._struct(v[2]) or self._struct(v[3])):
            return ite(v[1], self.size_of(v[2]), self.size_of(v[3]))
        if v[0] == 'fill' and len(v) > 2:
            return v[2]
        if v[0] == 'iter' and v[3][0] == 'append' and v[3][1][0] == 'acc':
            return add(self.size_of(v[1]), v[2])
        return ('size', v)

    # ------------------------------------------------------------ expressions
    @staticmethod
    def unit(fr, name, d):
        """Variables of CPython are the same in every unit."""
        return 'python' if name.startswith(('_Py', 'Py')) else (fr.tu, d)

    def lv(self, e, st, fr):
        """The path an lvalue expression designates."""
        k = e['k']
        if k == 'ref':
            d = e['d']
            if d in fr.env:
                return fr.env[d]
            if 'hold' in e and e['hold'] in fr.env:
                return fr.env[e['hold']]
            if e.get('dk') == 'global':
                return (('glob', e['n'], self.unit(fr, e['n'], d)), ())
            f = fr
            raise AnalysisError(f'unbound variable {e["n"]} in '
                                f'{fr.fn["n"] if fr.fn else "?"}:{e["l"]}')
        if k == 'mem':
            if e.get('method'):
                raise AnalysisError('method as lvalue')
            o = e['o']
            if e.get('arrow'):
                base = self.deref(self.ev(o, st, fr))
            elif o.get('lv') or o['k'] == 'this':
                base = self.lv(o, st, fr)
            else:
                loc = self.newloc('tmp')
                st.store[loc] = self.ev(o, st, fr)
                base = (loc, ())
            return self.ext(base, ('f', e['n']))
        if k == 'this':
            return fr.this
        if k == 'un' and e['op'] == '*':
            return self.deref(self.ev(e['e'], st, fr))
        if k == 'un' and e['op'] in ('++', '--'):
            self.ev(e, st, fr)
            return self.lv(e['e'], st, fr)
        if k == 'assign':
            self.ev(e, st, fr)
            return self.lv(e['a'], st, fr)
        if k == 'sub':
            a, i = e['a'], self.ev(e['i'], st, fr)
            if a.get('t', '').endswith(']') or a.get('lv'):
                return self.ext(self.lv(a, st, fr), ('i', i))
            v = self.ev(a, st, fr)
            return self.ptr_at(v, i)
        if k == 'cast':
            if e['ck'] in ('DerivedToBase', 'UncheckedDerivedToBase',
                           'BaseToDerived', 'NoOp', 'LValueBitCast',
                           'Dynamic') or e.get('lv'):
                if e['e'].get('lv'):
                    return self.lv(e['e'], st, fr)
                return self.tmp(self.ev(e['e'], st, fr), st)
        if k == 'cond':
            c = self.simp(st, self.cond(e['c'], st, fr))
            b = T.boolval(c)
            if b is True:
                return self.lv(e['a'], st, fr)
            if b is False:
                return self.lv(e['b'], st, fr)
            if e['a']['k'] == 'throw' or e['b']['k'] == 'throw':
                self.ev(e, st, fr)
                x = e['b'] if e['a']['k'] == 'throw' else e['a']
                return self.lv(x, st, fr)
            return ('ite', c, self.lv(e['a'], st, fr), self.lv(e['b'], st, fr))
        if k == 'bin' and e['op'] == ',':
            self.ev(e['a'], st, fr)
            return self.lv(e['b'], st, fr)
        if k in ('call', 'callptr'):
            v = self.call(e, st, fr, want_ref=True)
            if v[0] == 'ref':
                return self.deref(v[1])
            return self.tmp(v, st)
        if k == 'str':
            return self.tmp(('str', e['v']), st)
        return self.tmp(self.ev(e, st, fr), st)

    def tmp(self, v, st):
        loc = self.newloc('tmp')
        st.store[loc] = v
        return (loc, ())

    def ptr_at(self, v, i):
        if v[0] == 'ptr':
            if v[2] and v[2][-1][0] == 'i' and len(v[2][-1]) == 2:
                return (v[1], v[2][:-1] + (('i', add(v[2][-1][1], i)), ))
            return (v[1], v[2] + (('i', i), ))
        if v[0] == 'data':
            return self.ext(self.deref(v[1]), ('i', add(v[2], i)))
        return (('mem', v), (('i', i), ))

    def globval(self, e, st, fr):
        d = e.get('d')
        g = self.F.globals.get((fr.tu, d)) or self.F.gname.get(e['n'])
        if e['n'] in self.globals_over:
            return self.globals_over[e['n']]
        if g is None or g.get('init') is None or e['n'] in self.glob_busy:
            return ('glob', e['n'])
        t = g.get('t', '')
        if 'const' not in t and not g.get('constexpr'):
            return ('glob', e['n'])
        self.glob_busy.add(e['n'])
        try:
            f2 = Frame({'n': e['n'], 'file': g.get('file', ''), 'tu': g['tu'],
                        'ret': ''}, (('none', ), ()), fr)
            f2.tu = g['tu']
            return self.ev(g['init'], State({}, ()), f2)
        finally:
            self.glob_busy.discard(e['n'])

    def ev(self, e, st, fr, into=None):
        if e is None:
            return VOID
        m = getattr(self, 'e_' + e['k'], None)
        if 'cv' in e and e['k'] not in ('float', ) and not has_effect(e):
            if is_int(e['t']) or bare(e['t']) not in FLOATS:
                c = num(e['cv'])
                if bare(e['t']) == 'bool':
                    return TRUE if const(c) else FALSE
                return c
        if m is None:
            self.unknown.add(e['k'] + ':' + str(e.get('cls_', '')))
            vals = [self.ev(x, st, fr) for x in e.get('ch', [])]
            return ('opq', e['k'] + str(e.get('cls_', ''))) + tuple(vals)
        if e['k'] in ('ctor', 'init', 'call'):
            v = m(e, st, fr, into=into)
        else:
            v = m(e, st, fr)
        if self.lets and v[0] in ('poly', 'ite', 'at', 'real', 'imag'):
            v = self.named(v, e.get('t', ''))
        return v

    def named(self, v, t):
        """Large numbers are given a name (sampled interpretations only)."""
        b = bare(t)
        if b == 'bool' or not (is_int(b) or is_float(b) or 'complex<' in b and
                               b.startswith('std::complex')):
            return v
        if not larger(v, self.lets):
            return v
        if 'complex<' in b:
            return cplx(T.let(re_im('real', v)), T.let(re_im('imag', v)))
        return T.let(v)

    def e_int(self, e, st, fr):
        return num(int(e['v']))

    def e_float(self, e, st, fr):
        v = e['v']
        if v in ('nan', 'inf', '-inf'):
            return ('const', v)
        return num(float(v))

    def e_bool(self, e, st, fr):
        return TRUE if e['v'] else FALSE

    def e_str(self, e, st, fr):
        return ('str', e['v'])

    def e_null(self, e, st, fr):
        return NULL

    def e_zero(self, e, st, fr):
        t = bare(e.get('t', ''))
        if is_int(t) or is_float(t):
            return FALSE if t == 'bool' else ZERO
        if t.endswith('*'):
            return NULL
        return ('zero', t)

    def e_this(self, e, st, fr):
        return self.ptr(fr.this)

    def e_ref(self, e, st, fr):
        dk = e.get('dk')
        if dk == 'enum':
            return num(int(e['v']))
        if dk == 'func':
            return ('fn', e['f'], e['n'])
        if dk == 'global':
            if 'sv' in e:
                return ('str', e['sv'])
            if e['d'] in fr.env:
                return self.read(st, fr.env[e['d']])
            if 'cv' in e and (is_int(e['t']) or is_float(e['t'])):
                return self.constv(e)
            r = ('glob', e['n'], self.unit(fr, e['n'], e['d']))
            if r in st.store:
                return st.store[r]
            return self.root_init(r)
        if e['d'] not in fr.env and 'cv' in e:
            return self.constv(e)
        return self.read(st, self.lv(e, st, fr))

    def constv(self, e):
        v = e['cv']
        if v in ('nan', 'inf', '-inf'):
            return ('const', v)
        c = num(v)
        if bare(e['t']) == 'bool':
            return TRUE if const(c) else FALSE
        return c

    def e_mem(self, e, st, fr):
        if e.get('method'):
            return ('fn', e['f'], e['n'])
        return self.read(st, self.lv(e, st, fr))

    def e_sub(self, e, st, fr):
        return self.read(st, self.lv(e, st, fr))

    def e_un(self, e, st, fr):
        op = e['op']
        if op == '*':
            return self.read(st, self.lv(e, st, fr))
        if op == '&':
            x = e['e']
            if x['k'] == 'ref' and x.get('dk') == 'func':
                return ('fn', x['f'], x['n'])
            if x['k'] == 'mem' and x.get('method'):
                return ('fn', x['f'], x['n'])
            return self.ptr(self.lv(x, st, fr))
        if op in ('++', '--'):
            p = self.lv(e['e'], st, fr)
            old = self.read(st, p)
            if old[0] in ('it', 'data'):
                new = (old[0], old[1], add(old[2], ONE if op == '++' else num(-1)))
            elif old[0] in ('lv', ) and not (is_int(e['t']) or
                                             is_float(e['t'])) and \
                    '*' not in e['t']:
                new = ('itnext', old)
            elif old[0] == 'ptr' and '*' in e['t']:
                q = self.ptr_at(old, ONE if op == '++' else num(-1))
                new = ('ptr', q[0], q[1])
            else:
                new = add(old, ONE if op == '++' else num(-1))
            self.write(st, p, new, fr, e['l'])
            return old if e['post'] else new
        v = self.ev(e['e'], st, fr)
        if op == '-':
            return self.lift1(v, neg)
        if op == '+':
            return v
        if op == '!':
            return lnot(self.truth(v, e['e']))
        if op == '~':
            return ('bnot', v)
        return ('opq', 'un' + op, v)

    def lift1(self, v, f):
        if v[0] == 'ite':
            return ite(v[1], self.lift1(v[2], f), self.lift1(v[3], f))
        return f(v)

    def fit(self, v, e):
        """A known integer result reduced to its type; the overflow of a
        signed type is recorded."""
        if v[0] != 'poly':
            return v
        b = INT_BITS.get(bare(e['t']))
        if b is None or b[0] < 32:
            return v
        c = const(v)
        if c is None:
            return v
        m = 1 << b[0]
        lo, hi = (-m // 2, m // 2) if b[1] else (0, m)
        if lo <= c < hi:
            return v
        if b[1]:
            self.overflow.append((e.get('l'), int(c)))
        return self.intcast(v, 'long', e['t'])

    def arith(self, op, a, b, t):
        if a[0] == 'bool':
            a = ONE if a[1] else ZERO
        if b[0] == 'bool':
            b = ONE if b[1] else ZERO
        if a[0] == 'list' and b[0] == 'list' and op in '+-' and \
                len(a[1]) == len(b[1]):
            return ('list', tuple(self.arith(op, x, y, t)
                                  for x, y in zip(a[1], b[1])))
        # pointer / iterator arithmetic
        if a[0] in ('ptr', 'it', 'data') and op in '+-' and \
                b[0] not in ('ptr', 'it', 'data'):
            d = b if op == '+' else neg(b)
            if a[0] == 'it' or a[0] == 'data':
                return (a[0], a[1], add(a[2], d))
            q = self.ptr_at(a, d)
            return ('ptr', q[0], q[1])
        if a[0] in ('it', 'data') and b[0] == a[0] and op == '-' and \
                a[1] == b[1]:
            return sub(a[2], b[2])
        if op == '+':
            return add(a, b)
        if op == '-':
            if a == b and const(a) is None and a[0] not in ('it', 'ptr') and (
                    is_float(t) or 'complex' in t):
                # zero, unless the value is not finite
                return ('zerolike', a)
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if is_int(t):
                return app('idiv', a, b)
            return div(a, b)
        if op == '%':
            return app('imod', a, b)
        if op == '<<' and is_int(t):
            c = const(b)
            if c is not None and c >= 0:
                return mul(a, num(2**int(c)))
            return ('shl', a, b)
        if op == '>>' and is_int(t):
            ca, c = const(a), const(b)
            if ca is not None and c is not None:
                return num(int(ca) >> int(c))
            return ('shr', a, b)
        if op in ('&', '|', '^'):
            ca, cb = const(a), const(b)
            if ca is not None and cb is not None:
                ia, ib = int(ca), int(cb)
                return num({'&': ia & ib, '|': ia | ib, '^': ia ^ ib}[op])
            if bare(t) == 'bool' or (self._isb(a) and self._isb(b)):
                if op == '&':
                    return land(a, b)
                if op == '|':
                    return lor(a, b)
            return ({'&': 'band', '|': 'bor', '^': 'bxor'}[op], ) + tuple(
                sorted((a, b), key=repr))
        return ('opq', op, a, b)

    def text(self, v, st):
        """Characters designated by the pointer to those of a string."""
        if v[0] == 'data' and v[2] == ZERO:
            s = self.read(st, self.deref(v[1]))
            if s[0] in ('str', 'cat'):
                return s
        return v

    @staticmethod
    def _isb(v):
        return v[0] in ('bool', 'and', 'or', 'not', 'lt', 'le', 'eq', 'isnan')

    def compare(self, op, a, b):
        if op in ('==', '!='):
            r = None
            for x, y in ((a, b), (b, a)):
                if x[0] == 'zerolike' and y == ZERO:
                    r = finite(x[1])
                    return r if op == '==' else lnot(r)
            if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
                r = cmp('==', a[2], b[2])
            elif (a == NULL or b == NULL):
                x = b if a == NULL else a
                r = lnot(self.truth(x))
            elif self._isb(a) and b[0] == 'bool':
                r = a if b[1] else lnot(a)
            elif self._isb(b) and a[0] == 'bool':
                r = b if a[1] else lnot(b)
            elif a[0] == 'fn' and b[0] == 'fn':
                r = ('bool', a == b)
            if r is None:
                r = cmp('==', a, b)
            return r if op == '==' else lnot(r)
        if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
            return cmp(op, a[2], b[2])
        return cmp(op, a, b)

    def e_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            a = self.cond(e['a'], st, fr)
            if st.dead:
                return FALSE
            a = self.simp(st, a)
            bv = T.boolval(a)
            if op == '&&' and bv is False:
                return FALSE
            if op == '||' and bv is True:
                return TRUE
            res = []

            def rhs(x):
                res.append(self.cond(e['b'], x, fr))
                return x

            if not has_effect(e['b']):
                x = st.clone()
                self.assume(x, a if op == '&&' else lnot(a))
                x.dead = False
                n0 = len(fr.exits)
                v = self.cond(e['b'], x, fr)
                return land(a, v) if op == '&&' else lor(a, v)
            g = a if op == '&&' else lnot(a)
            o = self.branch(g, st, fr, rhs, lambda x: x)
            self.adopt(st, o)
            v = res[0] if res else FALSE
            return land(a, v) if op == '&&' else lor(a, v)
        if op == ',':
            self.ev(e['a'], st, fr)
            return self.ev(e['b'], st, fr)
        if op in ('.*', '->*'):
            return ('memfn', self.ev(e['b'], st, fr), self.ptr(
                self.lv(e['a'], st, fr) if op == '.*' else self.deref(
                    self.ev(e['a'], st, fr))))
        a = self.ev(e['a'], st, fr)
        b = self.ev(e['b'], st, fr)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.lift2(a, b, lambda x, y: self.compare(op, x, y))
        return self.lift2(a, b, lambda x, y: self.fit(
            self.arith(op, x, y, e['t']), e))

    def lift2(self, a, b, f):
        """Push an operator into constant-valued ite leaves."""
        if a[0] == 'ite' and self._lits(a) and const(b) is not None:
            return ite(a[1], self.lift2(a[2], b, f), self.lift2(a[3], b, f))
        if b[0] == 'ite' and self._lits(b) and const(a) is not None:
            return ite(b[1], self.lift2(a, b[2], f), self.lift2(a, b[3], f))
        if a[0] == 'ite' and b == NULL:
            return ite(a[1], self.lift2(a[2], b, f), self.lift2(a[3], b, f))
        return f(a, b)

    def _lits(self, v, d=0):
        if v[0] == 'ite':
            return d < 6 and (self._lits(v[2], d + 1) or self._lits(v[3], d + 1))
        return const(v) is not None

    def adopt(self, st, o):
        if o is None:
            st.dead = True
            return
        st.store, st.pc, st.dead = o.store, o.pc, o.dead

    def e_cond(self, e, st, fr):
        c = self.simp(st, self.cond(e['c'], st, fr))
        b = T.boolval(c)
        if b is True:
            return self.ev(e['a'], st, fr)
        if b is False:
            return self.ev(e['b'], st, fr)
        res = {}

        def arm(w):
            def f(x):
                v = self.ev(e[w], x, fr)
                if x.dead:
                    return None
                res[w] = v
                return x
            return f

        o = self.branch(c, st, fr, arm('a'), arm('b'))
        self.adopt(st, o)
        if 'a' in res and 'b' in res:
            return self.mergev(c, res['a'], res['b'])
        return res.get('a', res.get('b', VOID))

    def e_assign(self, e, st, fr):
        op = e['op']
        if op == '=':
            b = self.ev(e['b'], st, fr)
            p = self.lv(e['a'], st, fr)
            self.write(st, p, b, fr, e['l'])
            return b
        b = self.ev(e['b'], st, fr)
        p = self.lv(e['a'], st, fr)
        a = self.read(st, p)
        v = self.lift2(a, b, lambda x, y: self.fit(
            self.arith(op[:-1], x, y, e['t']), e))
        self.write(st, p, v, fr, e['l'])
        return v

    def e_init(self, e, st, fr, into=None):
        if e.get('cls') and e.get('fields') is not None and \
                not bare(e.get('t', '')).startswith('std::array'):
            fs = {}
            for n, x in zip(e['fields'], e['a']):
                fs[n] = self.ev(x, st, fr)
            return ('agg', e['cls'], ('undef', e['cls']),
                    tuple(sorted(fs.items())))
        vals = tuple(self.ev(x, st, fr) for x in e['a'])
        if bare(e.get('t', '')).startswith('std::array') and len(vals) == 1 \
                and vals[0][0] == 'list':
            return vals[0]
        t = e.get('t', '')
        m = re.search(r'\[(\d+)\]', t)
        if m and int(m.group(1)) > len(vals):
            vals = vals + (ZERO, ) * (int(m.group(1)) - len(vals))
        return ('list', vals)

    def e_arrcopy(self, e, st, fr):
        return self.ev(e['e'], st, fr)

    def e_typeid(self, e, st, fr):
        return ('opq', 'typeid')

    def e_pseudodtor(self, e, st, fr):
        return VOID

    def e_cast(self, e, st, fr):
        ck = e['ck']
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived',
                  'Dynamic') and e['e'].get('lv'):
            return self.read(st, self.lv(e['e'], st, fr))
        v = self.ev(e['e'], st, fr)
        if ck == 'IntegralCast':
            return self.intcast(v, e.get('from', ''), e['t'])
        if ck == 'FloatingToIntegral':
            return self.lift1(v, lambda x: app('trunc', x)
                              if const(x) is not None or x[0] not in (
                                  'round', 'floor', 'ceil', 'trunc') else x)
        if ck == 'IntegralToBoolean':
            return self.truth(v, e['e'])
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return self.truth(v)
        if ck == 'FloatingToBoolean':
            return cmp('!=', v, ZERO)
        if ck == 'FloatingCast':
            if bare(e['t']) == 'float' and bare(e.get('from', '')) != 'float':
                return self.lift1(v, lambda x: x if const(x) is not None or
                                  x[0] == 'const' else ('f32', x))
            return v
        if ck == 'IntegralToFloating':
            if self._isb(v):
                return ite(v, ONE, ZERO)
            return v
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULL
        if ck == 'ToVoid':
            return VOID
        if ck == 'BitCast' or ck == 'LValueBitCast':
            return v
        return v

    def intcast(self, v, frm, to):
        f, t = INT_BITS.get(bare(frm)), INT_BITS.get(bare(to))
        if self._isb(v) and f and f[0] == 1:
            return v if t and t[0] == 1 else ite(v, ONE, ZERO)
        if not f or not t:
            return v
        c = const(v)
        if c is not None:
            c = int(c)
            m = 1 << t[0]
            c %= m
            if t[1] and c >= m // 2:
                c -= m
            return num(c)
        if t[0] >= f[0] or (t[0] >= 32 and f[0] <= 64 and t[0] == f[0]):
            return v
        return self.lift1(v, lambda x: self.intcast(x, frm, to)
                          if const(x) is not None else ('wrap', t[0], t[1], x))

    def e_lambda(self, e, st, fr):
        caps = {}
        this = fr.this
        for c in e['caps']:
            if c.get('this'):
                if not c.get('byref'):
                    loc = self.newloc('*this')
                    st.store[loc] = self.read(st, fr.this)
                    this = (loc, ())
                continue
            if c.get('init') is not None:
                loc = self.newloc(c['n'])
                st.store[loc] = self.ev(c['init'], st, fr)
                caps[c['d']] = (loc, ())
            elif c.get('byref'):
                if c['d'] in fr.env:
                    caps[c['d']] = fr.env[c['d']]
            elif c['d'] in fr.env:
                loc = self.newloc(c['n'])
                st.store[loc] = self.read(st, fr.env[c['d']])
                caps[c['d']] = (loc, ())
        key = f'{fr.fn["file"] if fr.fn else ""}:{e["l"]}:{len(self.closures)}'
        self.closures[key] = (e, caps, this, fr)
        return ('lam', key)

    def e_throw(self, e, st, fr):
        x = e['e']
        t = bare(x['t']) if x else 'rethrow'
        msg = None
        if x:
            msg = self.ev(x, st, fr)
        if st.dead:
            return VOID
        fr.exits.append(('throw', st.pc, ('exception', t), st.store, e['l']))
        self.event('throw', st, (t, msg), fr, e['l'])
        st.dead = True
        return VOID

    def e_new(self, e, st, fr):
        if e.get('size') is not None:
            return ('newarr', e['nt'], self.ev(e['size'], st, fr))
        loc = self.newloc('new ' + e['nt'])
        v = self.ev(e['init'], st, fr, into=(loc, ())) if e.get('init') else (
            'undef', e['nt'])
        st.store[loc] = v
        self.event('new', st, (e['nt'], loc), fr, e['l'])
        return ('ptr', loc, ())

    def e_delete(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        self.event('delete', st, v, fr, e['l'])
        return VOID

    def e_other(self, e, st, fr):
        self.unknown.add('other:' + str(e.get('cls_', '')))
        vals = [self.ev(x, st, fr) for x in e.get('ch', [])]
        return ('opq', str(e.get('cls_', ''))) + tuple(vals)

    # ------------------------------------------------------------------ calls
    def e_call(self, e, st, fr, into=None):
        v = self.call(e, st, fr)
        if v[0] == 'ref':
            return self.read(st, self.deref(v[1]))
        return v

    def e_callptr(self, e, st, fr):
        v = self.call(e, st, fr)
        if v[0] == 'ref':
            return self.read(st, self.deref(v[1]))
        return v

    def objpath(self, e, st, fr):
        o = e.get('o')
        if o is None:
            return None
        if e.get('arrow') or (o['k'] == 'this'):
            return self.deref(self.ev(o, st, fr))
        x = o
        while x['k'] == 'cast' and 'Eigen' in x.get('t', ''):
            x = x['e']
        if x['k'] == 'call' and (x.get('n') or '').startswith('Eigen::') and \
                x.get('o') is not None and \
                x['n'].split('::')[-1] in EIGEN_VIEWS:
            # a view designates coefficients of its matrix
            return self.lv(x, st, fr)
        if o.get('lv'):
            return self.lv(o, st, fr)
        return self.tmp(self.ev(o, st, fr), st)

    def call(self, e, st, fr, want_ref=False):
        if e['k'] == 'callptr':
            return self.callptr(e, st, fr)
        n = e.get('n') or ''
        model = self.models.get(n) or self.models.get(strip_targs(n))
        if model:
            r = model(self, e, st, fr)
            if r is not None:
                return r
        cls, m = split_name(n)
        if not e.get('own'):
            # lambda call operator
            if m == 'operator()' and '(lambda' in n or '(anonymous' in cls:
                o = e.get('o')
                if o is not None:
                    v = self.ev(o, st, fr)
                    if v[0] == 'lam':
                        return self.call_lambda(v, e['a'], st, fr, e)
            r = self.std(e, cls, m, st, fr, want_ref)
            if r is not None:
                return r
            return self.opaque_call(e, st, fr)
        if m == 'operator()' or e.get('op') == '()':
            o = e.get('o')
            if o is not None and 'lambda' in (e.get('f', '') + o.get('t', '')):
                v = self.ev(o, st, fr)
                if v[0] == 'lam':
                    return self.call_lambda(v, e['a'], st, fr, e)
        if n in self.opaque or strip_targs(n) in self.opaque:
            return self.opaque_call(e, st, fr)
        fn = self.F.fn.get(e['f'])
        if e.get('virt') and not e.get('qual'):
            fn = self.resolve_virtual(e, st, fr) or None
            if fn is None:
                return self.opaque_call(e, st, fr)
        if fn is None or not fn.get('body'):
            if fn is not None and m.startswith('operator=') and \
                    len(e['a']) == 1 and e.get('o') is not None:
                v = self.ev(e['a'][0], st, fr)
                p = self.objpath(e, st, fr)
                self.write(st, p, v, fr, e['l'])
                return ('ref', self.ptr(p))
            if m == 'operator=' and len(e['a']) == 1 and e.get('o') is not None:
                v = self.ev(e['a'][0], st, fr)
                p = self.objpath(e, st, fr)
                self.write(st, p, v, fr, e['l'])
                return ('ref', self.ptr(p))
            return self.opaque_call(e, st, fr)
        this = self.objpath(e, st, fr)
        args = self.args(fn['params'], e['a'], st, fr)
        if st.dead:
            return VOID
        return self.inline(fn, this, args, st, fr, e)

    def resolve_virtual(self, e, st, fr):
        key = e['f']
        cands = [key] + list(self.all_over(key))
        bodies = [self.F.fn[k] for k in cands
                  if k in self.F.fn and self.F.fn[k].get('body')]
        if e['n'] in self.devirt:
            want = self.devirt[e['n']]
            for b in bodies:
                if b['n'] == want:
                    return b
        if e.get('o') is not None and e['o']['k'] == 'this' and fr.fn and \
                fr.fn.get('dyn'):
            pass
        # dynamic type known from the object's value
        p = None
        try:
            if e.get('arrow') or e['o']['k'] == 'this':
                p = self.deref(self.ev(e['o'], st, fr))
            elif e['o'].get('lv'):
                p = self.lv(e['o'], st, fr)
        except AnalysisError:
            p = None
        if p is not None and p[0] != 'ite':
            v = self.read(st, p)
            if v[0] == 'agg' and v[1]:
                for c in self.mro(v[1]):
                    for b in bodies:
                        if b.get('cls') == c:
                            return b
        if len(bodies) == 1 and not self.F.fn.get(key, {}).get('pure') and \
                self.F.fn.get(key, {}).get('body'):
            return bodies[0]
        return None

    def all_over(self, key, seen=None):
        seen = set() if seen is None else seen
        for k in self.F.overriders.get(key, []):
            if k not in seen:
                seen.add(k)
                self.all_over(k, seen)
        return seen

    def mro(self, cls):
        out = [cls]
        r = self.F.rec.get(cls)
        for b in (r or {}).get('bases', []):
            bn = b if isinstance(b, str) else b.get('n', b.get('key', ''))
            out += self.mro(bn)
        return out

    def args(self, params, es, st, fr):
        """Evaluate call arguments: a list of paths (refs) or values."""
        out = []
        for i, x in enumerate(es):
            t = params[i]['t'] if i < len(params) else ''
            if t.rstrip().endswith('&'):
                if x.get('lv'):
                    out.append(('path', self.lv(x, st, fr)))
                else:
                    out.append(('path', self.tmp(self.ev(x, st, fr), st)))
            else:
                out.append(('val', self.ev(x, st, fr)))
        return out

    def inline(self, fn, this, args, st, fr, e=None, env=None):
        depth = fr.depth if fr else 0
        if depth > self.maxdepth:
            return self.opaque_fn(fn, this, args, st, fr, e)
        # recursion guard
        f = fr
        n = 0
        while f is not None:
            if f.fn is not None and f.fn.get('key') == fn.get('key'):
                n += 1
            f = f.parent
        if n > 3:
            return self.opaque_fn(fn, this, args, st, fr, e)
        self.inlined.add(fn['key'])
        mk = None
        if this is None and not env and args and fr is not None and \
                len(args) == len(fn['params']):
            mk = self.constargs(fn, args, st)
            if mk is not None and mk in self.constmemo:
                return self.constmemo[mk]
        if mk is not None:
            before = dict(st.store)
            nev, nex, nun = len(self.events), len(fr.exits), len(self.unknown)
            nop = self.opaque_n
        start = self.nloc
        nf = Frame(fn, this if this is not None else (('none', ), ()), fr)
        if env:
            nf.env.update(env)
            nf.tu = env.get('#tu', nf.tu)
        nf.start = start
        self.bind_params(fn, args, st, nf)
        base = st.pc
        x = State(dict(st.store), base)
        if fn.get('ctor'):
            x = self.ctor_inits(fn, x, nf)
        r = None
        if x is not None:
            r = self.stmt(fn['body'], x, nf)
        if mk is None:
            return self.finish_call(nf, r, st, fr, base)
        r = self.finish_call(nf, r, st, fr, base)
        if not st.dead and len(self.events) == nev and nex == len(fr.exits) \
                and nun == len(self.unknown) and nop == self.opaque_n and \
                (const(r) is not None or r[0] in ('str', 'bool')) and \
                all(st.store.get(k) == v for k, v in before.items()) and \
                all(k in before or k[0] == 'loc' for k in st.store):
            # a pure function of constants
            self.constmemo[mk] = r
        return r

    def constargs(self, fn, args, st):
        """Key of a call whose arguments are all constants."""
        vals = []
        for p, (kind, v) in zip(fn['params'], args):
            t = p['t'].rstrip()
            if t.endswith('&') and not t.startswith('const'):
                return None
            if kind == 'path':
                v = self.read(st, v)
            if const(v) is None and v[0] not in ('str', 'bool'):
                return None
            vals.append(v)
        return (fn['key'], ) + tuple(vals)

    def bind_params(self, fn, args, st, nf):
        for i, p in enumerate(fn['params']):
            if i < len(args):
                kind, v = args[i]
            else:
                kind, v = 'val', ('undef', p['n'])
            if kind == 'path':
                if p['t'].rstrip().endswith('&'):
                    nf.env[p['d']] = v
                else:
                    loc = self.newloc(p['n'])
                    st.store[loc] = self.read(st, v)
                    nf.env[p['d']] = (loc, ())
            else:
                loc = self.newloc(p['n'])
                st.store[loc] = v
                nf.env[p['d']] = (loc, ())

    def finish_call(self, nf, r, st, fr, base):
        rets = [e for e in nf.exits if e[0] == 'return']
        if r is not None and not r.dead:
            rets.append(('return', r.pc, VOID, r.store, 0))
        throws = [e for e in nf.exits if e[0] == 'throw']
        if fr is not None:
            for t in throws:
                fr.exits.append(t)
        if not rets:
            st.dead = True
            return VOID
        # the variables of the call are gone
        start = getattr(nf, 'start', None)
        if start is not None and fr is not None and fr.fn and \
                fr.fn.get('n') != '<entry>':
            gone = {p[0] for p in nf.env.values() if p[0] != 'ite'}
            new = []
            for e in rets:
                if e[2][0] == 'ref':
                    new.append(e)
                    continue
                keep = dict(e[3])
                for r in self.locs[start + 1:]:
                    if r in keep and (r in gone or r[2] in
                                      ('tmp', '#i', 'res', 'acc')):
                        del keep[r]
                new.append((e[0], e[1], e[2], keep, e[4]))
            rets = new
        # merge
        val, store = None, None
        for e in reversed(rets):
            g = land(*[l for l in e[1] if l not in base])
            if store is None:
                val, store = e[2], dict(e[3])
            else:
                val = self.mergeret(g, e[2], val)
                ms = {}
                for k in set(store) | set(e[3]):
                    xa = e[3].get(k)
                    xb = store.get(k)
                    if xa is None:
                        xa = xb if k[0] in ('sub', 'loc') else self.root_init(k)
                    if xb is None:
                        xb = xa if k[0] in ('sub', 'loc') else self.root_init(k)
                    ms[k] = xa if xa == xb else self.mergev(g, xa, xb)
                store = ms
        st.store = store
        st.pc = base
        if throws:
            g = lor(*[land(*[l for l in t[1] if l not in base])
                      for t in throws])
            self.assume(st, lnot(g))
            st.dead = False
        # a value that is decided by an earlier exit must not mention it
        return val

    def mergeret(self, g, a, b):
        if a == b:
            return a
        if a[0] == 'ref' and b[0] == 'ref':
            return ('ref', ite(g, a[1], b[1]))
        return self.mergev(g, a, b)

    def call_lambda(self, v, argexprs, st, fr, e):
        le, caps, this, dfr = self.closures[v[1]]
        body, params = le.get('body'), le.get('params')
        ret = le.get('ret', '')
        if le.get('generic') is not None:
            gens = le['generic']
            if not gens:
                return self.opaque_call(e, st, fr)
            pick = gens[0]
            for g in gens:
                if g.get('key') == e.get('f'):
                    pick = g
            body, params, ret = pick['body'], pick['params'], pick['ret']
        fn = {'n': 'lambda@' + v[1], 'key': 'lambda@' + v[1], 'params': params,
              'body': body, 'file': dfr.fn['file'], 'ret': ret, 'tu': dfr.tu}
        args = self.args(params, argexprs, st, fr) if argexprs is not None \
            else []
        return self.inline(fn, this, args, st, fr, e, env=self.lamenv(v, caps))

    def lamenv(self, v, caps):
        return dict(caps)

    def apply_lambda(self, v, args, st, fr, e):
        """Call a closure with already evaluated ('path'|'val', x) args."""
        le, caps, this, dfr = self.closures[v[1]]
        body, params, ret = le.get('body'), le.get('params'), le.get('ret', '')
        if le.get('generic') is not None:
            if not le['generic']:
                return None
            g = le['generic'][0]
            body, params, ret = g['body'], g['params'], g['ret']
        fn = {'n': 'lambda@' + v[1], 'key': 'lambda@' + v[1], 'params': params,
              'body': body, 'file': dfr.fn['file'], 'ret': ret, 'tu': dfr.tu}
        return self.inline(fn, this, args, st, fr, e, env=dict(caps))

    def callptr(self, e, st, fr):
        c = e['c']
        if c['k'] == 'bin' and c['op'] in ('.*', '->*'):
            obj = self.lv(c['a'], st, fr) if c['op'] == '.*' else self.deref(
                self.ev(c['a'], st, fr))
            f = self.ev(c['b'], st, fr)
        else:
            obj = None
            f = self.ev(c, st, fr)
        return self.callval(f, obj, e, st, fr)

    def callval(self, f, obj, e, st, fr):
        if f[0] == 'ite':
            res = {}

            def arm(w, g):
                def run(x):
                    v = self.callval(g, obj, e, x, fr)
                    if x.dead:
                        return None
                    res[w] = v
                    return x
                return run

            o = self.branch(f[1], st, fr, arm(0, f[2]), arm(1, f[3]))
            self.adopt(st, o)
            if 0 in res and 1 in res:
                return self.mergeret(f[1], res[0], res[1])
            return res.get(0, res.get(1, VOID))
        if f[0] == 'lam':
            return self.call_lambda(f, e['a'], st, fr, e)
        if f[0] == 'fn':
            fn = self.F.fn.get(f[1])
            if fn is not None and fn.get('body') and f[2] not in self.opaque:
                args = self.args(fn['params'], e['a'], st, fr)
                return self.inline(fn, obj, args, st, fr, e)
            cls, m = split_name(f[2])
            e2 = dict(e)
            e2['n'], e2['f'], e2['k'] = f[2], f[1], 'call'
            r = self.std(e2, cls, m, st, fr, False)
            if r is not None:
                return r
        args = []
        for x in e['a']:
            args.append(self.ev(x, st, fr))
        ov = self.read(st, obj) if obj is not None else ('none', )
        self.event('callptr', st, (f, ov, tuple(args)), fr, e['l'])
        r = ('callptr', f, ov) + tuple(args)
        self.opaque_n += 1
        for x in e['a']:
            if x.get('lv') and not x.get('t', '').startswith('const') and \
                    not x.get('rd'):
                p = self.lv(x, st, fr)
                self.write(st, p, ('outof', r, self.read(st, p)), fr, e['l'])
        if obj is not None:
            self.write(st, obj, ('after', r, ov), fr, e['l'])
        return r

    def opaque_fn(self, fn, this, args, st, fr, e):
        vals = []
        for kind, v in args:
            vals.append(self.read(st, v) if kind == 'path' else v)
        if this is not None and this[0] != ('none', ):
            vals.insert(0, self.read(st, this))
        self.opaque_seen.add(fn['n'])
        # functions of the specifications raise no exceptions
        self.opaque_n += not fn['n'].startswith('verif::')
        return ('call', fn['n']) + tuple(vals)

    def opaque_call(self, e, st, fr):
        n = e.get('n') or '?'
        self.opaque_seen.add(n)
        self.opaque_n += not n.startswith('verif::')
        cls, m = split_name(n)
        pm = e.get('pm', [])
        obj = self.objpath(e, st, fr) if e.get('o') is not None else None
        vals, outs = [], []
        for i, x in enumerate(e['a']):
            mode = pm[i] if i < len(pm) else 'val'
            if x.get('lv'):
                p = self.lv(x, st, fr)
                v = self.read(st, p)
                if mode == 'ref' or (mode == 'rref' and False):
                    outs.append((i, p))
            else:
                v = self.ev(x, st, fr)
                if mode in ('ptr', 'ref') and v[0] == 'ptr':
                    outs.append((i, (v[1], v[2])))
                elif mode in ('ptr', ) and v[0] == 'data':
                    outs.append((i, self.deref(v[1])))
            vals.append(v)
        if st.dead:
            return VOID
        ov = self.read(st, obj) if obj is not None else None
        allv = ([ov] if ov is not None else []) + vals
        r = ('call', n) + tuple(allv)
        self.event('call', st, (n, obj, tuple(allv), e.get('f')), fr, e['l'])
        if e.get('noret'):
            fr.exits.append(('throw', st.pc, ('exception', n), st.store,
                             e['l']))
            st.dead = True
            return VOID
        for i, p in outs:
            self.write(st, p, ('out', i, r), fr, e['l'])
        if obj is not None and not e.get('mconst') and e.get('cls') and \
                m not in PURE_MUT and not (e.get('op') and not (
                    e['op'] in ('=', '+=', '-=', '*=', '/=', '++', '--', '<<',
                                '>>'))):
            self.write(st, obj, ('after', r), fr, e['l'])
        if e.get('lv'):
            return ('ref', ('pcall', ) + r[1:])
        return r

    # ------------------------------------------------------------ ctors
    def e_ctor(self, e, st, fr, into=None):
        n = e.get('n') or ''
        cls = e.get('cls') or ''
        b = strip_targs(cls)
        t = bare(e.get('t', ''))
        a = e['a']
        model = self.models.get(n) or self.models.get(strip_targs(n))
        if model:
            r = model(self, e, st, fr)
            if r is not None:
                return r
        if e.get('cm') in ('copy', 'move'):
            fn = self.F.fn.get(e.get('f'))
            if fn is None or not fn.get('body') or fn.get('defaulted') or \
                    fn.get('implicit'):
                v = self.ev(a[0], st, fr, into=into)
                if e['cm'] == 'copy' and a[0].get('lv'):
                    self.event('copy', st, (cls, self.lv(a[0], st, fr)), fr,
                               e['l'])
                return v
        fn = self.F.fn.get(e.get('f'))
        if fn is not None and fn.get('body') and n not in self.opaque and \
                (e.get('own') or self.ownfile(fn)):
            loc = into if into is not None else (self.newloc(cls), ())
            self.write_raw(st, loc, ('agg', cls, ('undef', cls), ()))
            args = self.args(fn['params'], a, st, fr)
            if st.dead:
                return VOID
            self.inline(fn, loc, args, st, fr, e)
            if st.dead:
                return VOID
            return self.read(st, loc)
        rec = self.F.rec.get(cls)
        if rec is not None and not a and e.get('own') is not None and \
                fn is not None and fn.get('inits') is not None:
            loc = into if into is not None else (self.newloc(cls), ())
            self.write_raw(st, loc, ('agg', cls, ('undef', cls), ()))
            nf = Frame(fn, loc, fr)
            x = self.ctor_inits(fn, st, nf)
            return self.read(st, loc)
        if b in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr'):
            if not a:
                return NULL
            return self.ev(a[0], st, fr)
        if b in ('boost::optional', 'std::optional'):
            if not a:
                return ('none', )
            x0 = a[0]
            if 'none_t' in x0.get('t', '') or 'nullopt' in x0.get('t', ''):
                return ('none', )
            v = self.ev(x0, st, fr)
            if v[0] in ('some', 'none') or bare(x0.get('t', '')) == t:
                return v
            return ('some', v)
        if b in ('std::tuple', 'std::pair'):
            vals = [self.ev(x, st, fr) for x in a]
            if len(vals) == 1 and ('tuple' in a[0].get('t', '') or
                                   'pair' in a[0].get('t', '')):
                return vals[0]
            if not vals:
                return ('zero', t)
            return ('list', tuple(vals))
        if b in ('std::map', 'std::set') and not [
                x for x in a if not x.get('defarg')]:
            return ('list', ())
        if b == 'std::vector' or b == 'std::array' or b == 'std::deque':
            vals = [self.ev(x, st, fr) for x in a if not x.get('defarg') and
                    'allocator' not in x.get('t', '')[:15]]
            if not vals:
                return ('list', ())
            if len(vals) == 1 and (vals[0][0] == 'list' or
                                   'initializer_list' in a[0].get('t', '') or
                                   'vector' in a[0].get('t', '')):
                return vals[0]
            if len(vals) == 2 and vals[0][0] == 'it' and vals[1][0] == 'it':
                if vals[0][1] == vals[1][1] and vals[0][2] == ZERO:
                    src = self.read(st, self.deref(vals[0][1]))
                    if self.size_of(src) == vals[1][2]:
                        return src
                return ('call', b + '::from') + tuple(vals)
            if len(vals) == 1:
                et = t.split('<', 1)[-1].split(',')[0].strip(' >')
                z = ZERO if is_int(et) or is_float(et) else (
                    NULL if 'ptr' in et or et.endswith('*') else ('zero', et))
                return filled(z, vals[0])
            if len(vals) == 2:
                return filled(vals[1], vals[0])
        if b == 'std::complex':
            vals = [self.ev(x, st, fr) for x in a]
            if len(vals) == 0:
                return ZERO
            if len(vals) == 1:
                return vals[0]
            return cplx(vals[0], vals[1])
        if b == 'std::basic_string':
            if not a:
                return ('str', '')
            v = self.ev(a[0], st, fr)
            vals = [self.ev(x, st, fr) for x in a[1:] if not x.get('defarg') and
                    'allocator' not in x.get('t', '')]
            v = self.text(v, st)
            return v if not vals else ('call', n, v) + tuple(vals)
        if b.startswith('Eigen::Ref') and len(a) >= 1:
            return self.ev(a[0], st, fr)
        if b.startswith('Eigen::Matrix') and len(a) == 1 and \
                'Eigen' in a[0].get('t', ''):
            return self.ev(a[0], st, fr)
        if b.startswith('__gnu_cxx::__normal_iterator') and a:
            return self.ev(a[0], st, fr)
        vals = []
        for x in a:
            if x.get('lv'):
                vals.append(self.read(st, self.lv(x, st, fr)))
            else:
                vals.append(self.ev(x, st, fr))
        if rec is not None and e.get('own') and not a:
            return ('agg', cls, ('undef', cls), ())
        if b.startswith('Eigen::Matrix') and len(vals) in (1, 2) and \
                'Dynamic' not in t:
            self.event('eigen', st, (t, tuple(vals)), fr, e['l'])
            return ('eigen', t) + tuple(vals)
        self.event('ctor', st, (cls, tuple(vals)), fr, e['l'])
        return ('new', cls) + tuple(vals)

    def ownfile(self, fn):
        return True

    def write_raw(self, st, p, v):
        if p[0] == 'ite':
            return
        root, steps = p
        if not steps:
            st.store[root] = v
        else:
            st.store[root] = self.update(self._rootval(st, root), steps, v)

    def ctor_inits(self, fn, st, nf):
        loc = nf.this
        for i in fn.get('inits') or []:
            if 'deleg' in i or i.get('deleg'):
                e = i.get('e')
                if e is not None:
                    self.ev(e, st, nf, into=loc)
            elif 'base' in i:
                e = i.get('e')
                if e is None:
                    continue
                if e['k'] == 'ctor' and self.F.fn.get(e.get('f'), {}).get(
                        'inits') is not None or e['k'] == 'ctor' and \
                        self.F.fn.get(e.get('f'), {}).get('body'):
                    bf = self.F.fn[e['f']]
                    cls = self.read(st, loc)
                    exprs = e['a']
                    if e.get('inherited'):
                        # an inherited constructor hands on its parameters
                        exprs = [dict(k='ref', dk='param', d=p['d'],
                                      n=p['n'], t=p['t'], lv=1, l=e['l'])
                                 for p in fn['params']]
                    args = self.args(bf['params'], exprs, st, nf)
                    nbf = Frame(bf, loc, nf)
                    self.bind_params(bf, args, st, nbf)
                    base = st.pc
                    x = self.ctor_inits(bf, st, nbf)
                    if bf.get('body'):
                        r = self.stmt(bf['body'], x, nbf)
                        self.finish_call(nbf, r, st, nf, base)
                elif e['k'] == 'ctor' and (e.get('cls') or '').startswith(
                        'boost::geometry::model::point'):
                    for j, x in enumerate(e['a']):
                        v = self.ev(x, st, nf)
                        if e.get('cm'):
                            for k in '012':
                                self.write_raw(
                                    st, self.ext(loc, ('f', '#' + k)),
                                    self.select(v, ('f', '#' + k)))
                        else:
                            self.write_raw(
                                st, self.ext(loc, ('f', f'#{j}')), v)
                elif e['k'] == 'ctor' and (e.get('cls') or '').startswith(
                        'boost::geometry::model::polygon'):
                    v = self.ev(e['a'][0], st, nf) if e['a'] else None
                    if e.get('cm'):
                        v = self.select(v, ('f', '#outer'))
                    else:
                        # the first ring of the list is the exterior one
                        while v and len(v) > 1 and (
                                v[0] == 'list' and len(v[1]) and
                                v[1][0][0] in ('list', 'new') or
                                v[0] == 'new' and len(v) == 3):
                            v = v[2] if v[0] == 'new' else v[1][0]
                    self.write_raw(st, self.ext(loc, ('f', '#outer')),
                                   v or ('list', ()))
                else:
                    for x in e.get('a', []):
                        self.ev(x, st, nf)
            else:
                f = i['field']
                p = self.ext(loc, ('f', f))
                e = i.get('e')
                if e is None:
                    continue
                v = self.ev(e, st, nf, into=None)
                if e['k'] == 'init' and e.get('cls') is None and \
                        v[0] == 'list' and len(v[1]) <= 1 and (
                            is_int(e.get('t', '')) or is_float(e.get('t', ''))
                            or e.get('t', '').endswith('*')):
                    v = v[1][0] if v[1] else ZERO
                self.write_raw(st, p, v)
                self.event('init', st, (f, v), nf, e.get('l', 0))
            if st.dead:
                return None
        return st

    # ------------------------------------------------------- library models
    def std(self, e, cls, m, st, fr, want_ref):
        n = strip_targs(e.get('n') or '')
        a = e['a']
        short = n.split('::')[-1] if '::' in n else n

        def A(i):
            return self.ev(a[i], st, fr)

        if n in ('std::move', 'std::forward', 'std::as_const', 'std::ref',
                 'std::cref'):
            if a[0].get('lv'):
                return ('ref', self.ptr(self.lv(a[0], st, fr)))
            return A(0)
        top = cls in ('std', '') or cls.startswith('std::__')
        if top and not e.get('o'):
            if short in MATH1_ALIAS:
                short = MATH1_ALIAS[short]
            if short in MATH1 and len(a) == 1:
                return self.lift1(A(0), lambda x: app(short, x))
            if short in ('abs', 'fabs', 'labs', 'llabs'):
                return self.lift1(A(0), lambda x: app('abs', x))
            if short in ('norm', ) and len(a) == 1:
                return ('cnorm', A(0))
            if short == 'pow' and len(a) == 2:
                x, y = A(0), A(1)
                c = const(y)
                if c is not None and c.denominator == 1 and abs(c) <= 12:
                    return T.power(x, int(c))
                if c is not None and c * 2 == 1:
                    return app('sqrt', x)
                return app('pow', x, y)
            if short in MATH2 and len(a) == 2:
                return app(short, A(0), A(1))
            if short in ('min', 'max', 'fmin', 'fmax') and len(a) == 2:
                x, y = A(0), A(1)
                return app(short[-3:], x, y)
            if short == 'isnan':
                v = A(0)
                if v == ('const', 'nan'):
                    return TRUE
                if const(v) is not None:
                    return FALSE
                return ('isnan', v)
            if short == 'isfinite':
                v = A(0)
                if const(v) is not None:
                    return TRUE
                if v == ('const', 'nan') or T.infinite(v):
                    return FALSE
                return ('isfinite', v)
            if short == 'remquo':
                x, y = A(0), A(1)
                p = self.ev(a[2], st, fr)
                if p[0] == 'ptr':
                    self.write(st, (p[1], p[2]), app('remquoq', x, y), fr, e['l'])
                return ('remainder', x, y)
            if short == 'modf':
                x = A(0)
                p = self.ev(a[1], st, fr)
                if p[0] == 'ptr':
                    self.write(st, (p[1], p[2]), ('trunc', x), fr, e['l'])
                return sub(x, ('trunc', x))
            if short == 'conj':
                return ('conj', A(0))
            if short == 'polar':
                x, y = A(0), A(1)
                return cplx(mul(x, app('cos', y)), mul(x, app('sin', y)))
            if short in ('real', 'imag') and len(a) == 1:
                return re_im(short, A(0))
            if short in ('make_tuple', 'make_pair'):
                return ('list', tuple(self.ev(x, st, fr) for x in a))
            if short in ('tie', 'forward_as_tuple'):
                return ('list', tuple(('ref', self.ptr(self.lv(x, st, fr)))
                                      for x in a))
            if short == 'get' and len(a) == 1:
                i = e.get('targs') or ['0']
                idx = i[0]
                mm = re.match(r'<?\s*(\d+)', idx)
                if mm:
                    step = ('i', num(int(mm.group(1))))
                    if a[0].get('lv'):
                        p = self.lv(a[0], st, fr)
                        v = self.read(st, p)
                        x = self.select(v, step)
                        if x[0] == 'ref':
                            return x
                        return ('ref', self.ptr(self.ext(p, step)))
                    return self.select(A(0), step)
            if short in ('make_shared', 'make_unique'):
                return self.make(e, st, fr)
            if short == 'swap' and len(a) == 2:
                p, q = self.lv(a[0], st, fr), self.lv(a[1], st, fr)
                x, y = self.read(st, p), self.read(st, q)
                self.write(st, p, y, fr, e['l'])
                self.write(st, q, x, fr, e['l'])
                return VOID
            if short in ('begin', 'cbegin', 'end', 'cend') and len(a) == 1:
                p = self.lv(a[0], st, fr)
                i = ZERO if 'begin' in short else self.size_of(
                    self.read(st, p))
                return ('it', self.ptr(p), i)
            if short in ('distance', ) and len(a) == 2:
                x, y = A(0), A(1)
                if x[0] == 'it' and y[0] == 'it' and x[1] == y[1]:
                    return sub(y[2], x[2])
            if short == 'exchange' and len(a) == 2:
                p = self.lv(a[0], st, fr)
                old = self.read(st, p)
                self.write(st, p, A(1), fr, e['l'])
                return old
            if short in ('back_inserter', ) and len(a) == 1:
                return ('inserter', self.ptr(self.lv(a[0], st, fr)))
            if short in ('tolower', 'toupper') and len(a) >= 1:
                return self.charfn(short, A(0))
            if short in ALGORITHMS:
                r = self.algorithm(short, e, st, fr)
                if r is not None:
                    return r
            if short == 'to_string':
                return ('tostr', A(0))
            if short == 'clamp' and len(a) == 3:
                return app('min', app('max', A(0), A(1)), A(2))
        if cls in ('std::numeric_limits', ):
            return self.limits(e, m)
        if n.startswith('std::operator') or n.startswith('boost::operator') or \
                n.startswith('__gnu_cxx::operator') or \
                n.startswith('Eigen::operator'):
            op = e.get('op')
            if op in ('+', '-', '*', '/') and len(a) == 2:
                x, y = A(0), A(1)
                if 'basic_string' in (a[0].get('t', '') + a[1].get('t', '')):
                    return cat(self.text(x, st), self.text(y, st))
                if 'complex' in e.get('t', '') or is_float(e.get('t', '')):
                    return self.arith(op, x, y, 'double')
                if 'iterator' in e.get('t', '') or (x[0] == 'it'):
                    return self.arith(op, x, y, 'long')
                r = self.matop(op, x, y)
                if r is not None:
                    return r
                return ({'+': 'eadd', '-': 'esub', '*': 'emul',
                         '/': 'ediv'}[op], x, y)
            if op == '-' and len(a) == 1:
                return neg(A(0))
            if op in ('==', '!=', '<', '>', '<=', '>=') and len(a) == 2:
                x, y = A(0), A(1)
                return self.compare(op, x, y)
        o = e.get('o')
        b = cls
        if b in SMART or b.startswith('std::__shared_ptr'):
            if m == 'get' and not a and 'optional' not in b:
                return self.ev(o, st, fr)
            if m == 'get_ptr' and not a:
                v = self.ev(o, st, fr)
                return NULL if v == ('none', ) else ite(
                    self.truth(v), self.optval(v, st, o, fr), NULL)
            if m == 'operator->' and not a:
                v = self.ev(o, st, fr)
                return self.optval(v, st, o, fr) if 'optional' in b else v
            if m in ('operator*', 'value', 'get'):
                v = self.ev(o, st, fr)
                if 'optional' in b:
                    v = self.optval(v, st, o, fr)
                    return ('ref', v)
                return ('ref', v)
            if m in ('value_or', 'get_value_or') and len(a) == 1:
                v, d = self.ev(o, st, fr), self.ev(a[0], st, fr)
                if v == ('none', ):
                    return d
                return ite(self.truth(v), self.read(st, self.deref(
                    self.optval(v, st, o, fr))), d)
            if m in ('operator bool', 'has_value', 'is_initialized') or \
                    m.startswith('operator bool') or (
                        e.get('conv') and bare(e['t']) == 'bool'):
                return self.truth(self.ev(o, st, fr))
            if m == 'operator!':
                return lnot(self.truth(self.ev(o, st, fr)))
            if m == 'operator=' and len(a) == 1:
                v = self.ev(a[0], st, fr)
                if 'optional' in b and v[0] not in ('some', 'none', 'ite') and \
                        'optional' not in a[0].get('t', ''):
                    v = ('some', v)
                p = self.objpath(e, st, fr)
                self.write(st, p, v, fr, e['l'])
                return ('ref', self.ptr(p))
            if m == 'reset':
                v = self.ev(a[0], st, fr) if a else NULL
                self.write(st, self.objpath(e, st, fr), v, fr, e['l'])
                return VOID
            if m == 'release':
                p = self.objpath(e, st, fr)
                v = self.read(st, p)
                self.write(st, p, NULL, fr, e['l'])
                return v
        if b == 'std::_Bit_reference' and o is not None:
            if m == 'operator bool' or e.get('conv'):
                return self.truth(self.ev(o, st, fr))
            if m == 'operator=' and len(a) == 1 and o['k'] == 'call':
                v = self.truth(A(0))
                r = self.call(o, st, fr)
                if r[0] == 'ref':
                    self.write(st, self.deref(r[1]), v, fr, e['l'])
                    return VOID
            if m == 'flip' and o['k'] == 'call':
                r = self.call(o, st, fr)
                if r[0] == 'ref':
                    q = self.deref(r[1])
                    self.write(st, q, lnot(self.truth(self.read(st, q))), fr,
                               e['l'])
                    return VOID
        if b == 'std::complex':
            if m in ('real', 'imag') and not a:
                return re_im(m, self.ev(o, st, fr))
            if m in ('real', 'imag') and len(a) == 1:
                p = self.objpath(e, st, fr)
                v = self.read(st, p)
                x = A(0)
                nv = cplx(x, re_im('imag', v)) if m == 'real' else cplx(
                    re_im('real', v), x)
                self.write(st, p, nv, fr, e['l'])
                return VOID
            if m in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
                v = A(0)
                p = self.objpath(e, st, fr)
                r = self.arith(m[8], self.read(st, p), v, 'double')
                if self.lets:
                    r = self.named(r, 'std::complex<double>')
                self.write(st, p, r, fr, e['l'])
                return ('ref', self.ptr(p))
        if m == 'operator=' and o is not None and len(a) == 1 and (
                b in ('std::complex', 'std::basic_string', 'std::map',
                      'std::unordered_map', 'std::set', 'std::function')
                or b in VECS or b.startswith('std::')
                or b.startswith('boost::') or b.startswith('Eigen::Matrix')
                or b.startswith('Eigen::PlainObjectBase')):
            if b == 'std::tuple' or b == 'std::pair':
                ov = self.ev(o, st, fr)
                v = self.ev(a[0], st, fr)
                if ov[0] == 'list' and any(x[0] == 'ref' for x in ov[1]):
                    vals = [self.select(v, ('i', num(i)))
                            for i in range(len(ov[1]))]
                    for x, y in zip(ov[1], vals):
                        if x[0] == 'ref':
                            self.write(st, self.deref(x[1]), y, fr, e['l'])
                    return VOID
            v = self.ev(a[0], st, fr)
            if b in VECS and v[0] == 'zero':
                v = ('list', ())
            p = self.objpath(e, st, fr)
            self.write(st, p, v, fr, e['l'])
            return ('ref', self.ptr(p))
        if b in VECS or b in ('std::_Vector_base', ):
            r = self.vector(e, m, st, fr)
            if r is not None:
                return r
        if b in ('std::map', 'std::unordered_map', 'std::set',
                 'std::multimap', 'std::unordered_set'):
            if b in ('std::map', 'std::set') and o is not None:
                r = self.mapop(e, b, m, st, fr)
                if r is not None:
                    return r
            if m in ('size', ):
                return self.size_of(self.ev(o, st, fr))
            if m in ('empty', ):
                return cmp('==', self.size_of(self.ev(o, st, fr)), ZERO)
            if m in ('begin', 'end', 'cbegin', 'cend'):
                p = self.objpath(e, st, fr)
                i = ZERO if 'begin' in m else self.size_of(self.read(st, p))
                return ('it', self.ptr(p), i)
        if 'normal_iterator' in b or 'const_iterator' in b or \
                b.endswith('_iterator'):
            if m == 'operator*':
                v = self.ev(o, st, fr)
                return ('ref', self.ptr(self.deref(v)))
            if m == 'operator->':
                v = self.ev(o, st, fr)
                return self.ptr(self.deref(v))
            if m in ('operator++', 'operator--'):
                p = self.objpath(e, st, fr)
                old = self.read(st, p)
                d = ONE if m == 'operator++' else num(-1)
                new = ('it', old[1], add(old[2], d)) if old[0] == 'it' else (
                    'itnext', old)
                self.write(st, p, new, fr, e['l'])
                return old if a else ('ref', self.ptr(p))
            if m in ('operator+', 'operator-') and len(a) == 1:
                return self.arith(m[8], self.ev(o, st, fr), A(0), 'long')
            if m == 'base':
                return self.ev(o, st, fr)
        if b == 'boost::geometry::model::polygon' and o is not None and \
                m == 'outer' and not a:
            return ('ref', self.ptr(self.ext(self.objpath(e, st, fr),
                                             ('f', '#outer'))))
        if b == 'boost::geometry::model::point' and o is not None and \
                m in ('get', 'set') and e.get('targs'):
            p = self.objpath(e, st, fr)
            f = ('f', '#' + re.match(r'\d+', e['targs'][0].strip('<')).group())
            if m == 'get':
                return ('ref', self.ptr(self.ext(p, f)))
            self.write(st, self.ext(p, f), A(0), fr, e['l'])
            return VOID
        if b.startswith('Eigen::') or b.startswith('Eigen'):
            r = self.eigen(e, b, m, st, fr)
            if r is not None:
                return r
        return None

    def mapop(self, e, b, m, st, fr):
        """Operations of an ordered container whose keys are known: the list
        of its (key, value) pairs."""
        a = e['a']
        if m not in ('emplace', 'insert', 'try_emplace', 'operator[]', 'at',
                     'find', 'count', 'erase', 'clear', 'insert_or_assign'):
            return None
        p = self.objpath(e, st, fr)
        v = self.read(st, p)
        if m == 'clear':
            self.write(st, p, ('list', ()), fr, e['l'])
            return VOID
        if v[0] in ('zero', ) or (v[0] == 'agg' and not v[3]):
            v = ('list', ())
        if v[0] != 'list' or not a:
            return None
        isset = b == 'std::set'
        keys = [const(x if isset else x[1][0])
                if isset or x[0] == 'list' else None for x in v[1]]
        if any(k is None for k in keys):
            return None
        key = self.ev(a[0], st, fr)
        vals = [self.ev(x, st, fr) for x in a[1:]]
        if m in ('emplace', 'insert') and not isset and len(a) == 1:
            if key[0] != 'list' or len(key[1]) != 2:
                return None
            key, vals = key[1][0], [key[1][1]]
        k = const(key)
        if k is None:
            return None
        i = next((j for j, x in enumerate(keys) if x >= k), len(keys))
        there = i < len(keys) and keys[i] == k
        it = ('it', self.ptr(p), num(i))
        cell = ('ref', self.ptr(self.ext(self.ext(p, ('i', num(i))),
                                         ('i', ONE))))
        if m == 'find':
            return it if there else ('it', self.ptr(p), num(len(keys)))
        if m == 'count':
            return ONE if there else ZERO
        if m == 'erase':
            if there:
                self.write(st, p, ('list', v[1][:i] + v[1][i + 1:]), fr,
                           e['l'])
            return ONE if there else ZERO
        if m == 'at':
            return cell if there else None
        if not there or m == 'insert_or_assign':
            if m == 'operator[]':
                vals = [self.zero_of(e)]
            if not isset and len(vals) != 1:
                return None
            new = key if isset else ('list', (key, vals[0]))
            self.write(st, p, ('list', v[1][:i] + (new, ) +
                               v[1][i + there:]), fr, e['l'])
        if m == 'operator[]':
            return cell
        return ('list', (it, FALSE if there else TRUE))

    def optval(self, v, st, o, fr):
        """Pointer to the payload of an optional value."""
        if v[0] == 'some':
            loc = self.newloc('optional')
            st.store[loc] = v[1]
            return ('ptr', loc, ())
        if v[0] == 'ite':
            if v[2] == ('none', ):
                return self.optval(v[3], st, o, fr)
            if v[3] == ('none', ):
                return self.optval(v[2], st, o, fr)
            return ite(v[1], self.optval(v[2], st, o, fr),
                       self.optval(v[3], st, o, fr))
        return ('payload', v)

    def make(self, e, st, fr):
        cls = (e.get('targs') or [''])[0].strip('<> ')
        t = bare(e['t'])
        mm = re.match(r'std::(?:shared_ptr|unique_ptr)<(.*)>$', t)
        if mm:
            cls = mm.group(1)
            if t.startswith('std::unique_ptr'):
                d, out = 0, ''
                for ch in cls:
                    if ch in '<(':
                        d += 1
                    elif ch in '>)':
                        d -= 1
                    elif ch == ',' and d == 0:
                        break
                    out += ch
                cls = out
        loc = (self.newloc(cls), ())
        cands = [f for f in self.F.fn.values()
                 if f.get('ctor') and f.get('cls') == cls and
                 (f.get('body') or f.get('inits') is not None) and
                 len(f['params']) >= len(e['a'])]
        cands.sort(key=lambda f: (len(f['params']), bool(f.get('copy_ctor')) or
                                  bool(f.get('move_ctor'))))
        vals = None
        if len(e['a']) == 1 and bare(e['a'][0].get('t', '')) == cls:
            st.store[loc[0]] = self.ev(e['a'][0], st, fr)
            return ('ptr', loc[0], ())
        cands = [c for c in cands if not c.get('copy_ctor') and
                 not c.get('move_ctor')]
        if cands and cls not in self.opaque:
            fn = cands[0]
            self.write_raw(st, loc, ('agg', cls, ('undef', cls), ()))
            args = self.args(fn['params'], e['a'], st, fr)
            self.inline(fn, loc, args, st, fr, e)
            return ('ptr', loc[0], ())
        vals = tuple(self.ev(x, st, fr) for x in e['a'])
        if cls.startswith('Eigen::') and len(vals) == 1 and \
                'Eigen' in e['a'][0].get('t', ''):
            st.store[loc[0]] = vals[0]
        else:
            st.store[loc[0]] = ('new', cls) + vals
        return ('ptr', loc[0], ())

    def limits(self, e, m):
        t = bare(e['t'])
        if 'complex' in t:
            # not specialised: the primary template
            return ZERO
        if m == 'quiet_NaN' or m == 'signaling_NaN':
            return ('const', 'nan')
        if m == 'infinity':
            return ('const', 'inf')
        if m == 'epsilon' and t == 'double':
            return num(2.0**-52)
        if m == 'epsilon' and t == 'float':
            return num(2.0**-23)
        if t in INT_BITS:
            bts, sg = INT_BITS[t]
            if m == 'max':
                return num((1 << (bts - 1)) - 1 if sg else (1 << bts) - 1)
            if m in ('min', 'lowest'):
                return num(-(1 << (bts - 1)) if sg else 0)
        return ('limit', t, m)

    def vector(self, e, m, st, fr):
        a, o = e['a'], e.get('o')
        if o is None:
            return None
        if m in ('size', 'length') and not a:
            return self.size_of(self.ev(o, st, fr))
        if m == 'empty':
            return cmp('==', self.size_of(self.ev(o, st, fr)), ZERO)
        if m in ('begin', 'end', 'cbegin', 'cend'):
            p = self.objpath(e, st, fr)
            i = ZERO if 'begin' in m else self.size_of(self.read(st, p))
            return ('it', self.ptr(p), i)
        if m in ('operator[]', 'at') and len(a) == 1:
            i = self.ev(a[0], st, fr)
            p = self.objpath(e, st, fr)
            return ('ref', self.ptr(self.ext(p, ('i', i))))
        if m in ('front', 'back') and not a:
            p = self.objpath(e, st, fr)
            i = ZERO if m == 'front' else sub(
                self.size_of(self.read(st, p)), ONE)
            return ('ref', self.ptr(self.ext(p, ('i', i))))
        if m in ('data', 'c_str'):
            p = self.objpath(e, st, fr)
            return ('data', self.ptr(p), ZERO)
        if m == 'reserve' or m == 'shrink_to_fit':
            for x in a:
                self.ev(x, st, fr)
            return VOID
        if m == 'clear':
            p = self.objpath(e, st, fr)
            self.write(st, p, ('list', ()), fr, e['l'])
            return VOID
        if m in ('push_back', 'emplace_back'):
            vt = e.get('cls') or ''
            if len(a) == 1:
                v = self.ev(a[0], st, fr)
            else:
                v = ('list', tuple(self.ev(x, st, fr) for x in a))
                if 'pair' not in vt and 'tuple' not in vt:
                    v = ('new', vt) + v[1]
            p = self.objpath(e, st, fr)
            old = self.read(st, p)
            if old[0] == 'list':
                new = ('list', old[1] + (v, ))
            else:
                new = ('append', old, v)
            self.write(st, p, new, fr, e['l'])
            return ('ref', self.ptr(self.ext(p, ('i', self.size_of(old)))))
        if m in ('resize', 'assign') and a:
            vals = [self.ev(x, st, fr) for x in a if not x.get('defarg')]
            p = self.objpath(e, st, fr)
            if m == 'resize':
                v = vals[1] if len(vals) > 1 else self.zero_of(e)
                old = self.read(st, p)
                c = const(vals[0])
                if old[0] == 'list' and c is not None and 0 <= c <= 512:
                    k = int(c)
                    new = ('list', old[1][:k] + (v, ) * (k - len(old[1])))
                elif self.size_of(old) == ZERO:
                    new = filled(v, vals[0])
                else:
                    new = ('resize', old, vals[0], v)
                self.write(st, p, new, fr, e['l'])
            else:
                self.write(st, p, filled(vals[1], vals[0])
                           if len(vals) == 2 and vals[0][0] != 'it' else
                           ('call', 'assign') + tuple(vals), fr, e['l'])
            return VOID
        if m == 'fill' and len(a) == 1:
            v = self.ev(a[0], st, fr)
            p = self.objpath(e, st, fr)
            old = self.read(st, p)
            self.write(st, p, filled(v, self.size_of(old)), fr, e['l'])
            return VOID
        if m in ('operator+=', ) and e.get('cls', '').startswith(
                'std::basic_string'):
            v = self.ev(a[0], st, fr)
            p = self.objpath(e, st, fr)
            self.write(st, p, cat(self.read(st, p), v), fr, e['l'])
            return ('ref', self.ptr(p))
        return None

    @staticmethod
    def zero_of(e):
        t = (e.get('cls') or '') or bare(e.get('o', {}).get('t', ''))
        et = t.split('<', 1)[-1].split(',')[0].strip(' >')
        if et == 'bool':
            return FALSE
        if is_int(et) or is_float(et):
            return ZERO
        if 'ptr' in et or et.endswith('*'):
            return NULL
        return ('zero', et)

    def eigen(self, e, b, m, st, fr):
        a, o = e['a'], e.get('o')
        if m in ('operator()', 'operator[]', 'coeff', 'coeffRef') and \
                o is not None and a:
            idx = tuple(self.ev(x, st, fr) for x in a)
            p = self.objpath(e, st, fr)
            return ('ref', self.ptr(self.eig_index(p, idx, st)))
        if m in ('size', 'rows', 'cols') and o is not None and not a:
            v = self.ev(o, st, fr)
            if v[0] == 'ptr':
                v = self.read(st, (v[1], v[2]))
            return eig_dim(m, v, e)
        if m == 'data' and o is not None:
            p = self.objpath(e, st, fr)
            return ('data', self.ptr(p), ZERO)
        if m in ('row', 'col') and len(a) == 1:
            i = self.ev(a[0], st, fr)
            p = self.objpath(e, st, fr)
            return ('ref', self.ptr(self.ext(p, ('i', m, i))))
        if m in ('fill', 'setConstant') and len(a) == 1:
            v = self.ev(a[0], st, fr)
            p = self.objpath(e, st, fr)
            if not (p[0] != 'ite' and p[1] and isinstance(p[1][-1][1], str)):
                q = self.mat(self.read(st, p), (o or {}).get('t', ''))
                if q is not None:
                    self.write(st, p, ('mat', q[1], q[2],
                                       (v, ) * len(q[3])), fr, e['l'])
                    return VOID
            self.write(st, p, ('fill', v, ), fr, e['l'])
            return VOID
        if m in ('setZero', ) and not a:
            p = self.objpath(e, st, fr)
            self.write(st, p, ('fill', ZERO), fr, e['l'])
            return ('ref', self.ptr(p))
        if m in ('Zero', 'Constant', 'Ones') and o is None:
            vals = [self.ev(x, st, fr) for x in a]
            q = self.mat(('efill', vals[-1] if m == 'Constant' else
                          ZERO if m == 'Zero' else ONE) + tuple(
                              vals[:-1] if m == 'Constant' else vals),
                         e.get('cls') or e.get('t', ''))
            if q is not None:
                return q
            if m == 'Constant':
                return ('efill', vals[-1]) + tuple(vals[:-1])
            return ('efill', ZERO if m == 'Zero' else ONE) + tuple(vals)
        if m == 'operator<<' and o is not None:
            p = self.objpath(e, st, fr)
            q = self.mat(self.read(st, p), o.get('t', ''))
            d = q[1:3] if q is not None else eig_static(o.get('t', ''))
            v = self.ev(a[0], st, fr)
            l = ('list', (v, ))
            self.write(st, p, ('mat', 1, 1, l[1]) if d == (1, 1) else
                       ('comma', l), fr, e['l'])
            return ('cinit', self.ptr(p), l, d)
        if m == 'operator,' and o is not None:
            c = self.ev(o, st, fr)
            v = self.ev(a[0], st, fr)
            if c[0] == 'cinit':
                l = ('list', c[2][1] + (v, ))
                # the comma list is a plain list of coefficients
                d = c[3]
                if d is not None and d[0] * d[1] == len(l[1]):
                    q = ('mat', d[0], d[1], l[1])
                else:
                    q = ('comma', l)
                self.write(st, self.deref(c[1]), q, fr, e['l'])
                return ('cinit', c[1], l, d)
        if m == 'finished' and o is not None:
            c = self.ev(o, st, fr)
            if c[0] == 'cinit':
                return ('ref', c[1])
        if m == 'operator=' and o is not None and len(a) == 1:
            v = self.ev(a[0], st, fr)
            p = self.objpath(e, st, fr)
            self.write(st, p, v, fr, e['l'])
            return ('ref', self.ptr(p))
        if m in ('array', 'matrix', 'eval', 'noalias', 'derived'):
            p = self.objpath(e, st, fr)
            return ('ref', self.ptr(p))
        if m in ('head', 'tail', 'segment', 'topRows', 'bottomRows',
                 'transpose', 'real', 'imag', 'leftCols', 'rightCols') and \
                o is not None:
            idx = tuple(self.ev(x, st, fr) for x in a)
            if not idx and e.get('targs'):
                idx = tuple(num(int(x)) for x in e['targs']
                            if re.fullmatch(r'<?\d+>?', x))
            p = self.objpath(e, st, fr)
            return ('ref', self.ptr(self.ext(p, ('i', m) + idx)))
        if m in ('cos', 'sin', 'abs', 'sqrt', 'hasNaN', 'allFinite', 'sum',
                 'mean', 'minCoeff', 'maxCoeff') and o is not None:
            v = self.ev(o, st, fr)
            q = self.mat(v) if v[0] in ('mat', 'comma', 'efill', 'eigen',
                                        'upd') else None
            if q is not None:
                if m in ('cos', 'sin', 'abs', 'sqrt'):
                    return ('mat', q[1], q[2],
                            tuple(self.lift1(x, lambda z: app(m, z))
                                  for x in q[3]))
                if m == 'sum':
                    return add(ZERO, *q[3])
                if m == 'mean' and q[3]:
                    return div(add(ZERO, *q[3]), num(len(q[3])))
                if m == 'hasNaN':
                    return lor(*[('isnan', x) for x in q[3]])
                if m == 'allFinite':
                    return land(*[('isfinite', x) for x in q[3]])
            return ('e' + m, v)
        if m in ('operator*', 'operator+', 'operator-', 'operator/', 'dot',
                 'cwiseProduct') and o is not None and len(a) == 1:
            x, y = self.ev(o, st, fr), self.ev(a[0], st, fr)
            arr = 'Array' in b
            if m == 'dot':
                p, q = (self.mat(z) if z[0] in ('mat', 'comma', 'efill',
                                                'list', 'upd') else None
                        for z in (x, y))
                if p and q and len(p[3]) == len(q[3]):
                    return add(ZERO, *[mul(i, j)
                                       for i, j in zip(p[3], q[3])])
            else:
                r = self.matop(m[-1] if m != 'cwiseProduct' else '*', x, y,
                               arr or m == 'cwiseProduct')
                if r is not None:
                    return r
            nm = {'operator*': 'ecmul' if arr else 'emul', 'operator+': 'eadd',
                  'operator-': 'esub', 'operator/': 'ediv', 'dot': 'dot',
                  'cwiseProduct': 'ecmul'}[m]
            if nm in ('eadd', 'ecmul', 'dot'):
                return (nm, ) + tuple(sorted((x, y), key=repr))
            return (nm, x, y)
        return None

    def eig_index(self, p, idx, st):
        """Normalise row(i)(j) into (i, j)."""
        if p[0] == 'ite':
            return ('ite', p[1], self.eig_index(p[2], idx, st),
                    self.eig_index(p[3], idx, st))
        if p[1] and p[1][-1][0] == 'i' and len(p[1][-1]) == 3 and \
                len(idx) == 1 and p[1][-1][1] in ('row', 'col'):
            _, kind, i = p[1][-1]
            full = (i, idx[0]) if kind == 'row' else (idx[0], i)
            return (p[0], p[1][:-1] + (('i', ) + full, ))
        return self.ext(p, ('i', ) + idx)

    # ---------------------------------------------------------- algorithms
    def invoke(self, f, args, st, fr, e):
        """Call a closure or a function of the repository with evaluated
        arguments."""
        if f[0] == 'lam':
            return self.apply_lambda(f, args, st, fr, e)
        if f[0] == 'fn':
            fn = self.F.fn.get(f[1])
            if fn is not None and fn.get('body'):
                return self.inline(fn, None, args, st, fr, e)
        vals = tuple(self.read(st, v) if k == 'path' else v for k, v in args)
        if f[0] == 'fn':
            short = f[2].split('::')[-1]
            if short in ('isnan', 'isfinite', 'tolower', 'toupper') and \
                    len(vals) == 1:
                return self.charfn(short, vals[0]) if short.startswith('to') \
                    else (short, vals[0])
            return ('call', f[2]) + vals
        self.opaque_seen.add('functor')
        return ('callptr', f) + vals

    @staticmethod
    def charfn(name, v):
        c = const(v)
        if c is not None and 0 <= c < 128:
            return num(ord(chr(int(c)).lower() if name == 'tolower'
                           else chr(int(c)).upper()))
        lo, hi, d = (65, 90, 32) if name == 'tolower' else (97, 122, -32)
        return ite(land(cmp('>=', v, num(lo)), cmp('<=', v, num(hi))),
                   add(v, num(d)), v)

    def walkrange(self, b, n, st, fr, e, body, pc_break=None):
        """Counted loop over the elements b[0..n)."""
        counter = self.newloc('#i')
        st.store[counter] = ZERO
        s = {'l': e['l']}

        def condf(x):
            return self.simp(x, cmp('<', x.store[counter], n))

        def run(x):
            return body(x, x.store[counter])

        def inc(x):
            x.store[counter] = add(x.store[counter], ONE)

        o = self.genloop(s, st, fr, condf, run, inc)
        self.adopt(st, o)
        return counter

    def stop(self, c, x, fr, line):
        """break out of the current loop when c holds."""
        c = self.simp(x, c)
        bv = T.boolval(c)
        if bv is False:
            return x
        if bv is True:
            fr.exits.append(('break', x.pc, VOID, x.store, line))
            return None
        y = x.clone()
        self.assume(y, c)
        if not y.dead:
            fr.exits.append(('break', y.pc, VOID, y.store, line))
        self.assume(x, lnot(c))
        return None if x.dead else x

    def elem(self, it, i):
        """Path of element i after iterator it."""
        return self.ext(self.deref(it[1]), ('i', add(it[2], i)))

    def algorithm(self, short, e, st, fr):
        a = e['a']
        if short in ('for_each', 'all_of', 'any_of', 'none_of', 'find_if',
                     'find_if_not', 'count_if', 'generate'):
            need = 3
        elif short in ('equal', 'transform', 'accumulate', 'find', 'count',
                       'copy', 'fill', 'inner_product', 'iota', 'replace_if',
                       'max_element', 'min_element'):
            need = 2
        else:
            return None
        if len(a) < need:
            return None
        # iterators first: nothing else may be evaluated before deciding
        b, en = self.ev(a[0], st, fr), self.ev(a[1], st, fr)
        if b[0] == 'data' and en[0] == 'data' and b[1] == en[1]:
            b, en = ('it', ) + b[1:], ('it', ) + en[1:]
        rest = [self.ev(x, st, fr) for x in a[2:]]
        bad = b[0] != 'it' or en[0] != 'it' or b[1] != en[1]
        if bad:
            self.unknown.add('algorithm ' + short)
            return ('call', 'std::' + short, b, en) + tuple(rest)
        n = sub(en[2], b[2])
        line = e['l']

        def here(x, i):
            return ('path', self.elem(b, i))

        if short == 'for_each':
            f = rest[0]

            def body(x, i):
                self.invoke(f, [here(x, i)], x, fr, e)
                return None if x.dead else x

            self.walkrange(b, n, st, fr, e, body)
            return f
        if short in ('all_of', 'any_of', 'none_of', 'equal'):
            res = self.newloc('res')
            good = short != 'any_of'
            st.store[res] = ('bool', good)
            if short == 'equal':
                f = None
                c2 = rest[0]
                if len(rest) >= 2 and rest[1][0] == 'it':
                    n2 = sub(rest[1][2], c2[2])
                    same = self.simp(st, cmp('==', n, n2))
                    f = rest[2] if len(rest) > 2 else None
                    k = n if const(n) is not None else n2
                else:
                    same = TRUE
                    k = n
                    f = rest[1] if len(rest) > 1 else None
                if c2[0] == 'data':
                    c2 = ('it', ) + c2[1:]
                if c2[0] != 'it':
                    self.unknown.add('algorithm equal')
                    return ('call', 'std::equal', b, en) + tuple(rest)

                def body(x, i):
                    p, q = here(x, i), ('path', self.elem(c2, i))
                    if f is None:
                        v = cmp('==', self.read(x, p[1]), self.read(x, q[1]))
                    else:
                        v = self.truth(self.invoke(f, [p, q], x, fr, e))
                    if x.dead:
                        return None
                    v = self.simp(x, v)
                    y = x
                    old = x.store[res]
                    x.store[res] = ('bool', False)
                    z = self.stop(lnot(v), x, fr, line)
                    if z is not None:
                        z.store[res] = old
                    return z

                def eq(x):
                    self.walkrange(b, k, x, fr, e, body)
                    return None if x.dead else x

                def ne(x):
                    x.store[res] = FALSE
                    return x

                o = self.branch(same, st, fr, eq, ne)
                self.adopt(st, o)
                return self.truth(st.store[res]) if not st.dead else VOID
            f = rest[0]

            def body(x, i):
                v = self.truth(self.invoke(f, [here(x, i)], x, fr, e))
                if x.dead:
                    return None
                if short == 'all_of':
                    v = lnot(v)
                v = self.simp(x, v)
                x.store[res] = ('bool', not good)
                z = self.stop(v, x, fr, line)
                if z is not None:
                    z.store[res] = ('bool', good)
                return z

            self.walkrange(b, n, st, fr, e, body)
            return self.truth(st.store[res]) if not st.dead else VOID
        if short in ('find', 'find_if', 'find_if_not'):
            f = rest[0]
            counter = []

            def body(x, i):
                if short == 'find':
                    v = cmp('==', self.read(x, here(x, i)[1]), f)
                else:
                    v = self.truth(self.invoke(f, [here(x, i)], x, fr, e))
                if x.dead:
                    return None
                if short == 'find_if_not':
                    v = lnot(v)
                return self.stop(v, x, fr, line)

            c = self.walkrange(b, n, st, fr, e, body)
            if st.dead:
                return VOID
            return ('it', b[1], add(b[2], st.store[c]))
        if short in ('accumulate', 'count', 'count_if', 'inner_product'):
            acc = self.newloc('acc')
            st.store[acc] = rest[0] if short == 'accumulate' else ZERO
            if short == 'inner_product':
                st.store[acc] = rest[1]

            def body(x, i):
                p = here(x, i)
                old = x.store[acc]
                if short == 'accumulate':
                    if len(rest) > 1:
                        x.store[acc] = self.invoke(
                            rest[1], [('val', old), p], x, fr, e)
                    else:
                        x.store[acc] = add(old, self.read(x, p[1]))
                elif short == 'inner_product':
                    q = self.elem(rest[0], i)
                    x.store[acc] = add(old, mul(self.read(x, p[1]),
                                                self.read(x, q)))
                else:
                    v = cmp('==', self.read(x, p[1]), rest[0]) if \
                        short == 'count' else self.truth(
                            self.invoke(rest[0], [p], x, fr, e))
                    x.store[acc] = add(old, ite(v, ONE, ZERO))
                return None if x.dead else x

            self.walkrange(b, n, st, fr, e, body)
            return st.store[acc] if not st.dead else VOID
        if short in ('fill', 'generate', 'iota', 'replace_if'):
            def body(x, i):
                p = here(x, i)[1]
                if short == 'fill':
                    self.write(x, p, rest[0], fr, line)
                elif short == 'iota':
                    self.write(x, p, add(rest[0], i), fr, line)
                elif short == 'generate':
                    self.write(x, p, self.invoke(rest[0], [], x, fr, e), fr,
                               line)
                else:
                    v = self.truth(self.invoke(rest[0], [('path', p)], x, fr,
                                               e))
                    self.write(x, p, ite(v, rest[1], self.read(x, p)), fr,
                               line)
                return None if x.dead else x

            self.walkrange(b, n, st, fr, e, body)
            return VOID
        if short in ('copy', 'transform'):
            two = short == 'transform' and len(rest) == 3
            dst = rest[1] if two else rest[0]
            f = rest[-1] if short == 'transform' else None
            if dst[0] == 'data':
                dst = ('it', ) + dst[1:]
            if dst[0] not in ('it', 'inserter'):
                self.unknown.add('algorithm ' + short)
                return ('call', 'std::' + short, b, en) + tuple(rest)

            def body(x, i):
                p = here(x, i)
                if f is None:
                    v = self.read(x, p[1])
                elif two:
                    v = self.invoke(f, [p, ('path', self.elem(rest[0], i))],
                                    x, fr, e)
                else:
                    v = self.invoke(f, [p], x, fr, e)
                if x.dead:
                    return None
                if v[0] == 'ref':
                    v = self.read(x, self.deref(v[1]))
                if dst[0] == 'inserter':
                    q = self.deref(dst[1])
                    old = self.read(x, q)
                    self.write(x, q, ('list', old[1] + (v, ))
                               if old[0] == 'list' else ('append', old, v),
                               fr, line)
                else:
                    self.write(x, self.elem(dst, i), v, fr, line)
                return x

            self.walkrange(b, n, st, fr, e, body)
            return ('it', dst[1], add(dst[2], n)) if dst[0] == 'it' else dst
        if short in ('min_element', 'max_element'):
            best = self.newloc('best')
            st.store[best] = ZERO

            def body(x, i):
                p = here(x, i)
                q = ('path', self.elem(b, x.store[best]))
                if rest:
                    args = [p, q] if short == 'min_element' else [q, p]
                    v = self.truth(self.invoke(rest[0], args, x, fr, e))
                else:
                    u, w = self.read(x, p[1]), self.read(x, q[1])
                    v = cmp('<', u, w) if short == 'min_element' else \
                        cmp('<', w, u)
                x.store[best] = self.mergev(v, i, x.store[best])
                return None if x.dead else x

            self.walkrange(b, n, st, fr, e, body)
            return ('it', b[1], add(b[2], st.store[best]))
        return None

    # ------------------------------------------------------------ entry point
    def run(self, fn, this=None, args=None, names=True, store=None):
        """Summarise one function.  Parameters default to symbols named after
        them; `this` defaults to the symbolic object 'this'."""
        st = State(dict(store or {}), ())
        fr = Frame({'n': '<entry>', 'file': fn['file'], 'ret': '', 'key': ''},
                   (('this', ), ()))
        fr.tu = fn.get('tu')
        args = dict(args or {})
        actual = []
        for i, p in enumerate(fn['params']):
            v = args.get(p['n'], args.get(i))
            isref = p['t'].rstrip().endswith('&')
            if isref:
                root = ('arg', p['n'] or f'arg{i}')
                if v is not None:
                    st.store[root] = v
                actual.append(('path', (root, ())))
            else:
                if v is None:
                    v = ('sym', p['n'] or f'arg{i}')
                actual.append(('val', v))
        tp = this if this is not None else (('this', ), ())
        if tp and tp[0][0] == 'loc' and tp[0] not in st.store:
            pass
        e0 = len(self.events)
        val = self.inline(fn, tp, actual, st, fr)
        if val[0] == 'ref':
            self.lastref = val[1]
            val = self.read(st, self.deref(val[1]))
        r = Result()
        r.value = val
        r.store = st.store
        r.state = st
        r.throws = [(land(*x[1]), x[2], x[4]) for x in fr.exits
                    if x[0] == 'throw']
        r.events = self.events[e0:]
        r.dead = st.dead
        return r


# --------------------------------------------------------------------- helpers
def itnorm(y):
    if isinstance(y, tuple) and y and y[0] == 'itnext' and len(y) == 2 and \
            isinstance(y[1], tuple) and y[1] and y[1][0] == 'it':
        return ('it', y[1][1], add(y[1][2], ONE))
    return None


def itidx(a):
    return a[1] if a and a[0] == 'itidx' else None


def lin(d, lv):
    """d = k*lv + rest with rest free of lv -> (k, rest)."""
    p = T.poly(d)
    k = 0
    rest = {}
    for m, c in p.items():
        if m == ((lv, 1), ):
            k += c
        else:
            for a, _ in m:
                if lv in set(T.walk(a)):
                    return None
            rest[m] = c
    if k == 0:
        return None
    return k, T.norm(T._p(rest))


def cplx(re_, im):
    if im == ZERO:
        return re_
    if re_[0] == 'const' or im[0] == 'const':
        return ('cplx', re_, im)
    return add(re_, mul(sym('#I'), im))


def larger(t, n):
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            n -= 1
            if n < 0:
                return True
            stack.extend(x)
    return False


def finite(v):
    re_, im = re_im('real', v), re_im('imag', v)
    if im == ZERO:
        return ('isfinite', re_)
    return land(('isfinite', re_), ('isfinite', im))


def re_im(which, v):
    if v[0] == 'ite':
        return ite(v[1], re_im(which, v[2]), re_im(which, v[3]))
    if v[0] == 'cplx':
        return v[1] if which == 'real' else v[2]
    I = sym('#I')
    p = T.poly(v)
    parts, rest = [], {}
    for m, c in p.items():
        for a, e in m:
            if a[0] == 'ite' and e == 1 and any(x == I for x in T.walk(a)):
                o = T.norm(T._p({tuple(x for x in m if x != (a, 1)): c}))
                parts.append(ite(a[1], re_im(which, mul(o, a[2])),
                                 re_im(which, mul(o, a[3]))))
                break
        else:
            rest[m] = c
    if parts:
        if any((I, 1) in m for m in rest):
            parts.append(re_im(which, T.norm(T._p(rest))))
        elif which == 'real':
            parts.append(T.norm(T._p(rest)))
        return add(*parts)
    if any((I, 1) in m for m in p):
        reals, imags = {}, {}
        for m, c in p.items():
            if (I, 1) in m:
                imags[tuple(x for x in m if x != (I, 1))] = c
            else:
                reals[m] = c
        return T.norm(T._p(reals if which == 'real' else imags))
    if const(v) is not None:
        return v if which == 'real' else ZERO
    if v[0] == 'at' and v[1][0] == 'mat' and len(v[1]) == 4:
        m = v[1]
        return ('at', ('mat', m[1], m[2],
                       tuple(re_im(which, x) for x in m[3]))) + v[2:]
    return (which, v)


def cat(x, y):
    xs = x[1:] if x[0] == 'cat' else (x, )
    ys = y[1:] if y[0] == 'cat' else (y, )
    out = []
    for z in xs + ys:
        if out and out[-1][0] == 'str' and z[0] == 'str':
            out[-1] = ('str', out[-1][1] + z[1])
        else:
            out.append(z)
    return out[0] if len(out) == 1 else ('cat', ) + tuple(out)


def eig_static(t):
    """(rows, columns) of an Eigen type of fixed size."""
    if re.search(r'(?:Block|Transpose|Wise\w*Op|Product|Map|Diagonal)<', t):
        return None
    mm = re.search(r'(?:Matrix|Array)<[^,<]*(?:<[^>]*>)?, (\d+), (\d+)\b', t)
    if mm:
        return int(mm.group(1)), int(mm.group(2))
    mm = re.search(r'Eigen::(Vector|RowVector|Matrix)([234])[dfi]\b', t)
    if mm:
        n = int(mm.group(2))
        return {'Vector': (n, 1), 'RowVector': (1, n),
                'Matrix': (n, n)}[mm.group(1)]
    return None


def mat_pos(m, idx):
    """Position of a coefficient in the row-major list, or None."""
    n = [const(x) if not isinstance(x, str) else None for x in idx]
    if m is None or any(x is None for x in n):
        return None
    n = [int(x) for x in n]
    if len(n) == 2 and 0 <= n[0] < m[1] and 0 <= n[1] < m[2]:
        return n[0] * m[2] + n[1]
    if len(n) == 1 and 1 not in m[1:3] and 0 <= n[0] < len(m[3]):
        # the storage is by columns
        return n[0] % m[1] * m[2] + n[0] // m[1]
    if len(n) == 1 and 1 in m[1:3] and 0 <= n[0] < len(m[3]):
        return n[0]
    return None


def eig_dim(m, v, e):
    if v[0] == 'mat':
        return num({'rows': v[1], 'cols': v[2], 'size': v[1] * v[2]}[m])
    # fixed dimensions come from the type
    t = (e.get('o') or {}).get('t', '')
    mm = re.search(r'Matrix<[^,]*(?:<[^>]*>)?, (-?\d+), (-?\d+)', t)
    if mm:
        r, c = int(mm.group(1)), int(mm.group(2))
        if m == 'rows' and r >= 0:
            return num(r)
        if m == 'cols' and c >= 0:
            return num(c)
        if m == 'size' and r >= 0 and c >= 0:
            return num(r * c)
    while v[0] in ('upd', ):
        v = v[1]
    if v[0] == 'iter':
        return eig_dim(m, v[1], e)
    if v[0] == 'eigen':
        vals = v[2:]
        if len(vals) == 1 and m in ('size', 'rows'):
            return vals[0]
        if len(vals) == 2:
            return {'rows': vals[0], 'cols': vals[1],
                    'size': mul(vals[0], vals[1])}[m]
    if mm and int(mm.group(2)) == 1 and m == 'rows':
        return ('size', v)
    return (m, v)


def subst_any(d, f):
    if isinstance(d, tuple):
        if d and isinstance(d[0], str) and d[0] in (
                'poly', 'sym', 'obj', 'fld', 'at', 'ite', 'call', 'lv', 'and',
                'or', 'not', 'lt', 'le', 'eq', 'sum', 'agg', 'upd', 'list'):
            return f(d)
        return tuple(subst_any(x, f) for x in d)
    return d


EFFECT_CACHE = {}


def has_effect(e):
    """Does the expression contain an assignment, increment, call or throw?"""
    k = id(e)
    r = EFFECT_CACHE.get(k)
    if r is not None and r[0] is e:
        return r[1]
    v = _has_effect(e)
    EFFECT_CACHE[k] = (e, v)
    return v


def _has_effect(e):
    if isinstance(e, dict):
        if e.get('k') in ('assign', 'throw', 'new', 'delete'):
            return True
        if e.get('k') == 'un' and e.get('op') in ('++', '--'):
            return True
        if e.get('k') in ('call', 'callptr') and not e.get('mconst') and \
                e.get('own'):
            return True
        return any(_has_effect(v) for v in e.values()
                   if isinstance(v, (dict, list)))
    if isinstance(e, list):
        return any(_has_effect(v) for v in e)
    return False


PARENTS = {
    'std::invalid_argument': ['std::logic_error', 'std::exception'],
    'std::out_of_range': ['std::logic_error', 'std::exception'],
    'std::runtime_error': ['std::exception'],
    'std::ios_base::failure': ['std::system_error', 'std::runtime_error',
                               'std::exception'],
    'std::logic_error': ['std::exception'],
}


def open_value(v):
    """Whether a value depends on the arguments or on the state."""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if x and x[0] in ('sym', 'obj', 'deref', 'undef', 'call', 'glob'):
            return True
        todo.extend(x)
    return False


def catches(t, exc):
    t = bare(t)
    if exc[0] != 'exception':
        return True
    x = exc[1]
    return t == x or t in PARENTS.get(x, ()) or t.split('<')[0] == x


def decide(lits, c):
    """Is comparison c decided by the comparisons among `lits`?  Only the same
    linear form against constants is considered (interval reasoning)."""
    if c[0] == 'eq' and len(c) == 3 and 'str' in (c[1][0], c[2][0]):
        # equal to one string, different from every other
        x, v = (c[1], c[2]) if c[2][0] == 'str' else (c[2], c[1])
        for l in lits:
            if l[0] == 'eq' and len(l) == 3 and x in l[1:]:
                w = l[2] if l[1] == x else l[1]
                if w[0] == 'str' and w != v and v[0] == 'str':
                    return False
        return None
    f = linform(c)
    if f is None:
        return None
    key, lo, los, hi, his = -1, None, False, None, False
    form, k, kind = f
    lower, upper = None, None     # bounds on form, (value, strict)
    for l in lits:
        ng = l[0] == 'not'
        q = l[1] if ng else l
        if q[0] not in ('lt', 'le', 'eq') or len(q) != 3:
            continue
        g = linform(q)
        if g is None:
            continue
        sgn = 1
        if g[0] != form:
            if g[0] == neg(form):
                sgn = -1
            else:
                continue
        _, kk, kd = g
        # q: form*sgn + kk (<|<=|==) 0
        if kd == 'eq':
            if not ng:
                v = -kk * sgn
                lower = tighter(lower, (v, False), True)
                upper = tighter(upper, (v, False), False)
            continue
        strict = kd == 'lt'
        if not ng:
            if sgn == 1:     # form < -kk
                upper = tighter(upper, (-kk, strict), False)
            else:            # -form < -kk -> form > kk
                lower = tighter(lower, (kk, strict), True)
        else:
            if sgn == 1:     # form >= -kk
                lower = tighter(lower, (-kk, not strict), True)
            else:
                upper = tighter(upper, (kk, not strict), False)
    if lower is None and upper is None:
        return None
    b = -k
    if kind == 'eq':
        if lower and (lower[0] > b or (lower[0] == b and lower[1])):
            return False
        if upper and (upper[0] < b or (upper[0] == b and upper[1])):
            return False
        if lower and upper and lower[0] == upper[0] == b:
            return True
        return None
    strict = kind == 'lt'
    # form < b / form <= b ?
    if upper and (upper[0] < b or (upper[0] == b and (upper[1] or not strict))):
        return True
    if lower and (lower[0] > b or (lower[0] == b and (lower[1] or strict))):
        return False
    return None


def tighter(old, new, low):
    if old is None:
        return new
    if low:
        return new if (new[0] > old[0] or new[0] == old[0] and new[1]) else old
    return new if (new[0] < old[0] or new[0] == old[0] and new[1]) else old


_lf = {}


def linform(q):
    """comparison -> (form without constant, constant, kind) meaning
    form + constant (kind) 0."""
    r = _lf.get(q)
    if r is not None:
        return r[0]
    res = None
    if q[1] and q[2] and isinstance(q[1], tuple) and isinstance(q[2], tuple) and \
            q[1][0] != 'const' and q[2][0] != 'const' and \
            q[1][0] not in ('str', 'bool') and q[2][0] not in ('str', 'bool'):
        p = dict(T.poly(sub(q[1], q[2])))
        k = p.pop((), 0)
        if p:
            res = (T.norm(T._p(p)), k, q[0])
            if q[0] == 'eq':
                first = sorted(p.items(), key=lambda x: T._key(x[0]))[0][1]
                if first < 0:
                    res = (neg(res[0]), -k, 'eq')
    _lf[q] = (res, )
    return res
