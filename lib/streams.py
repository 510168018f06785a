"""Models of the byte streams used by the serialization: a state is a list of
fields (value, bytes, type); writing appends fields, reading takes back the
bytes at the position of the reader."""
import struct
from fractions import Fraction

import absint
import terms as T
from absint import AnalysisError, VOID
from terms import ZERO, const, num

SIZES = {'bool': 1, 'char': 1, 'signed char': 1, 'unsigned char': 1,
         'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
         'float': 4, 'long': 8, 'unsigned long': 8, 'double': 8,
         'long long': 8, 'unsigned long long': 8,
         'std::complex<float>': 8, 'std::complex<double>': 16}


def nbytes(v):
    return sum(n for _, n, _ in v[1])


def pointee(e):
    """Type designated by a pointer converted to a pointer to bytes."""
    while e['k'] == 'cast' and 'char *' in e.get('t', ''):
        e = e['e']
    return absint.bare(e['t'].rstrip().rstrip('*'))


def kind(t):
    if t in ('bool', 'float', 'double') or 'complex' in t:
        return t
    return 'int'


def raise_(st, fr, line, cond=T.TRUE, t='std::ios_base::failure'):
    """The exception is raised where cond holds."""
    if cond == T.FALSE:
        return
    if cond == T.TRUE:
        fr.exits.append(('throw', st.pc, ('exception', t), st.store, line))
        st.dead = True


def unwrap(e, v):
    """Bytes of a matrix as a field: value, number of bytes."""
    return v


def write(e, c, st, fr):
    p = e.objpath(c, st, fr)
    s = e.read(st, p)
    if s[0] != 'stream':
        return None
    src = e.ev(c['a'][0], st, fr)
    n = const(e.ev(c['a'][1], st, fr))
    if n is None:
        raise AnalysisError('number of bytes written not known')
    n = int(n)
    t = pointee(c['a'][0])
    if n == 0:
        return ('ref', e.ptr(p))
    if src[0] == 'data':
        v = e.read(st, e.deref(src[1]))
        if v[0] == 'bytes':
            new = take(v, int(const(src[2])), n)
        elif v[0] == 'list' and const(src[2]) == 0:
            # the elements of a vector
            k = SIZES.get(t)
            if k is None or k * len(v[1]) != n:
                raise AnalysisError('bytes written are not those of a vector')
            new = tuple((x, k, kind(t)) for x in v[1])
        else:
            m = e.mat(v)
            k = SIZES.get(t)
            if m is None or k is None or const(src[2]) != 0:
                raise AnalysisError('bytes written not understood')
            cells = colmajor(m)
            if n % k or n // k > len(cells):
                raise AnalysisError('bytes written are not those of a matrix')
            new = tuple((x, k, kind(t)) for x in cells[:n // k])
    elif src[0] == 'ptr':
        v = e.read(st, e.deref(src))
        if n != SIZES.get(t, n):
            # more or fewer bytes than the object has
            v = ('call', 'part', v, num(n))
        new = ((v, n, kind(t)), )
    else:
        raise AnalysisError(f'bytes written not understood: {src[:2]}')
    e.write_raw(st, p, ('stream', s[1] + new))
    return ('ref', e.ptr(p))


def colmajor(m):
    return [m[3][r * m[2] + c] for c in range(m[2]) for r in range(m[1])]


def take(v, off, n):
    """Fields of the bytes [off, off + n)."""
    out = []
    at = 0
    for x, k, t in v[1]:
        lo, hi = max(at, off), min(at + k, off + n)
        if lo < hi:
            if (lo, hi) == (at, at + k):
                out.append((x, k, t))
            else:
                b = encode(x, k, t)
                out.append((('raw', b[lo - at:hi - at]) if b is not None else
                            ('call', 'part', x, num(lo - at), num(hi - lo)),
                            hi - lo, 'bytes'))
        at += k
    return tuple(out)


FORMATS = {'float': '<f', 'double': '<d'}


def encode(v, n, t):
    """The bytes of a known value, or None."""
    if t == 'bytes' and v[0] == 'raw':
        return v[1]
    if t == 'bool':
        k = T.boolval(v)
        return None if k is None else bytes([bool(k)])
    if t.startswith('std::complex'):
        a, b = (encode(x, n // 2, 'float' if n == 8 else 'double')
                for x in (absint.re_im('real', v), absint.re_im('imag', v)))
        return None if a is None or b is None else a + b
    if v == ('const', 'nan'):
        return struct.pack(FORMATS[t], float('nan')) if t in FORMATS else None
    k = const(v)
    if k is None:
        return None
    if t in FORMATS:
        return struct.pack(FORMATS[t], float(k))
    if t == 'int' and k == int(k):
        return (int(k) % 2**(8 * n)).to_bytes(n, 'little')
    return None


def decode(b, t):
    if t in FORMATS:
        x = struct.unpack(FORMATS[t], b)[0]
        if x != x:
            return ('const', 'nan')
        if x in (float('inf'), -float('inf')):
            return None
        return num(Fraction(x))
    if t.startswith('std::complex'):
        k = len(b) // 2
        u = 'float' if k == 4 else 'double'
        x, y = decode(b[:k], u), decode(b[k:], u)
        if x is None or y is None:
            return None
        return T.add(x, T.mul(T.sym('#I'), y))
    if t == 'bool':
        return ('bool', b != b'\0')
    return num(int.from_bytes(b, 'little', signed='unsigned' not in t and
                              '::' not in t))


def as_value(fields, n, t):
    """The fields of n bytes read as one value of a type."""
    b = [encode(*f) for f in fields]
    if all(x is not None for x in b) and (
            len(fields) != 1 or fields[0][2] != kind(t) or kind(t) == 'int'):
        v = decode(b''.join(b), t)
        if v is not None:
            return v
    if len(fields) == 1 and fields[0][1] == n:
        v, _, k = fields[0]
        if k == kind(t):
            return v
        if k == 'int' and kind(t) == 'bool':
            return v
        return ('call', 'reinterpret', ('str', k), ('str', t), v)
    return ('call', 'bytes', ('str', t)) + tuple(
        x for f in fields for x in (f[0], num(f[1])))


def field(e, st, p, name):
    return e.read(st, e.ext(p, ('f', name)))


def flags(e, st, p, name):
    """Condition of a stream: none until one is set."""
    k = const(field(e, st, p, name))
    return 0 if k is None else int(k)


def put(e, st, p, name, v):
    e.write_raw(st, e.ext(p, ('f', name)), v)


def position(v):
    """Location and offset of a pointer into the bytes."""
    k = const(v[2]) if v[0] == 'data' else None
    if k is None:
        raise AnalysisError(f'position in the state not understood: {v[:1]}')
    return v[1], int(k)


def read(e, c, st, fr):
    p = e.objpath(c, st, fr)
    g = field(e, st, p, '#gptr')
    if g[0] != 'data':
        return None
    base, off = position(g)
    _, end = position(field(e, st, p, '#egptr'))
    dst = e.ev(c['a'][0], st, fr)
    n = const(e.ev(c['a'][1], st, fr))
    if n is None:
        raise AnalysisError('number of bytes read not known: ' +
                            T.show(e.ev(c['a'][1], st, fr))[:300])
    n = int(n)
    failed = flags(e, st, p, '#state')
    v = e.read(st, e.deref(base))
    if v[0] != 'bytes':
        raise AnalysisError('the state read is not known')
    if end > nbytes(v) or off < 0:
        e.overrun = True
    if n < 0 or off + n > end or failed:
        return fail(e, c, st, fr, p, 6) or ('ref', e.ptr(p))
    got = take(v, off, n)
    t = pointee(c['a'][0])
    put(e, st, p, '#gptr', ('data', base, num(off + n)))
    if n == 0:
        return ('ref', e.ptr(p))
    if dst[0] == 'data':
        q = e.deref(dst[1])
        old = e.read(st, q)
        k = SIZES.get(t)
        d = int(const(dst[2])) if const(dst[2]) is not None else None
        if k is None or n % k or d is None:
            raise AnalysisError('bytes read not understood')
        cells = [as_value(take(('bytes', got), i * k, k), k, t)
                 for i in range(n // k)]
        if old[0] in ('list', 'fill') and old[0] == 'list':
            if d + len(cells) > len(old[1]):
                e.overrun = True
                return ('ref', e.ptr(p))
            e.write_raw(st, q, ('list', old[1][:d] + tuple(cells) +
                                old[1][d + len(cells):]))
            return ('ref', e.ptr(p))
        m = e.mat(old)
        if m is None:
            raise AnalysisError('bytes read into an unknown matrix')
        all_ = colmajor(m)
        if d + len(cells) > len(all_):
            e.overrun = True
            return ('ref', e.ptr(p))
        all_[d:d + len(cells)] = cells
        R, C = m[1], m[2]
        e.write_raw(st, q, ('mat', R, C, tuple(
            all_[j * R + i] for i in range(R) for j in range(C))))
        return ('ref', e.ptr(p))
    if dst[0] == 'ptr':
        if n > SIZES.get(t, n):
            e.overrun = True
        e.write_raw(st, e.deref(dst), as_value(got, n, t))
        return ('ref', e.ptr(p))
    raise AnalysisError('bytes read not understood')


def fail(e, c, st, fr, p, bits):
    """Sets bits of the state of a reader."""
    old = flags(e, st, p, '#state')
    put(e, st, p, '#state', num(old | bits))
    if flags(e, st, p, '#exceptions') & (old | bits):
        raise_(st, fr, c['l'])
        return VOID
    return None


def setg(e, c, st, fr):
    p = e.objpath(c, st, fr)
    for a, name in zip(c['a'], ('#eback', '#gptr', '#egptr')):
        put(e, st, p, name, e.ev(a, st, fr))
    return VOID


def getter(name):
    return lambda e, c, st, fr: field(e, st, e.objpath(c, st, fr), name)


def gbump(e, c, st, fr):
    p = e.objpath(c, st, fr)
    base, off = position(field(e, st, p, '#gptr'))
    put(e, st, p, '#gptr', ('data', base, T.add(
        num(off), e.ev(c['a'][0], st, fr))))
    return VOID


def istream(e, c, st, fr):
    """Construction of the part of a reader that keeps its condition."""
    return ('agg', '#ios', ('undef', '#ios'), ())


def exceptions(e, c, st, fr):
    p = e.objpath(c, st, fr)
    s = e.read(st, p)
    if s[0] == 'stream' or not c['a']:
        return VOID
    mask = const(e.ev(c['a'][0], st, fr))
    if mask is None:
        raise AnalysisError('exceptions of the stream not known')
    put(e, st, p, '#exceptions', num(int(mask)))
    return VOID


def setstate(e, c, st, fr):
    p = e.objpath(c, st, fr)
    bits = const(e.ev(c['a'][0], st, fr))
    if bits is None:
        raise AnalysisError('condition of the stream not known')
    return fail(e, c, st, fr, p, int(bits)) or VOID


def test(mask, good):
    def f(e, c, st, fr):
        p = e.objpath(c, st, fr)
        if e.read(st, p)[0] == 'stream':
            return ('bool', good)
        s = flags(e, st, p, '#state')
        return ('bool', (s & mask == 0) == good)
    return f


def stringstream(e, c, st, fr):
    if c.get('cm') in ('copy', 'move'):
        return None
    return ('stream', ())


def str_(e, c, st, fr):
    s = e.read(st, e.objpath(c, st, fr))
    return ('bytes', s[1]) if s[0] == 'stream' else None


def altered(e, c, st, fr):
    """verif::altered(state, kind, at, value): kind 1 keeps `at` bytes, kind 2
    replaces the value of field number `at`, kind 3 those of this field and of
    the next one, kind 4 adds bytes, kind 5 makes the field undefined."""
    s = e.ev(c['a'][0], st, fr)
    k, at, value = (const(e.ev(x, st, fr)) for x in c['a'][1:])
    if s[0] != 'bytes':
        raise AnalysisError(f'the state written is not known: {s[:2]}')
    f = list(s[1])
    e.fields = f
    if k == 1:
        f = list(take(s, 0, int(at)))
    elif k in (2, 3, 5):
        f = list(f)
        for i in range(int(at), int(at) + (2 if k == 3 else 1)):
            new = ('const', 'nan') if k == 5 else num(int(value))
            if f[i][2] == 'bool':
                new = ('bool', bool(value))
            f[i] = (new, ) + f[i][1:]
    elif k == 4:
        f = f + [(('sym', '#extra'), 8, 'bytes')]
    return ('bytes', tuple(f))


IOS = 'std::basic_ios::'
BUF = 'std::basic_streambuf::'
MODELS = {
    'std::basic_ostream::write': write,
    'std::basic_istream::read': read,
    'std::basic_stringstream::basic_stringstream': stringstream,
    'std::basic_ostringstream::basic_ostringstream': stringstream,
    'std::basic_stringstream::str': str_,
    'std::basic_ostringstream::str': str_,
    'std::basic_istream::basic_istream': istream,
    IOS + 'exceptions': exceptions,
    IOS + 'setstate': setstate,
    IOS + 'fail': test(5, False),
    IOS + 'good': test(7, True),
    IOS + 'bad': test(1, False),
    IOS + 'eof': test(2, False),
    IOS + 'operator bool': test(5, True),
    IOS + 'operator!': test(5, False),
    BUF + 'setg': setg,
    BUF + 'gptr': getter('#gptr'),
    BUF + 'egptr': getter('#egptr'),
    BUF + 'eback': getter('#eback'),
    BUF + 'gbump': gbump,
    'verif::altered': altered,
}
