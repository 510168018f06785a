"""Models of threads, locks and exceptions passed between threads, with the
memory each thread reads and writes."""
import terms as T
from facts import AnalysisError

VOID = ('void', )


class Threads:
    def __init__(self, late, cpus=1, bad=(), alone=True):
        self.alone = alone  # the workers write nothing that is shared
        self.late, self.cpus, self.bad = late, cpus, bad
        self.log = []       # ranges given to the workers
        self.threads = []   # callable, arguments, state
        self.inside = None  # thread running
        self.locks = []
        self.problems = []
        self.before = ()
        self.access = []    # memory read and written by each thread

    # -- threads
    def value(self, e, x, st, fr):
        v = e.ev(x, st, fr)
        return ('path', e.deref(v[1])) if v[0] == 'refwrap' else ('val', v)

    def create(self, e, c, a, st, fr):
        f = e.ev(a[0], st, fr)
        if f[0] == 'thread':
            return f
        if f[0] == 'ref':
            f = e.read(st, e.deref(f[1]))
        if f[0] != 'lam':
            raise AnalysisError('function of a thread not understood: ' +
                                str(f[:1]))
        args = [self.value(e, x, st, fr) for x in a[1:]]
        self.threads.append([f, args, 'created'])
        k = len(self.threads) - 1
        if not self.late:
            self.start(e, c, k, st, fr)
        return ('thread', k)

    def start(self, e, c, k, st, fr):
        f, args, state = self.threads[k]
        self.threads[k][2] = 'run'
        outer = self.inside, self.before, self.locks
        self.inside, self.before, self.locks = k, set(st.store), []
        n = len(fr.exits)
        inner = e.write_raw, e.write, e.read
        seen = {}
        self.access.append(seen)

        def look(p, write):
            if p[0] == 'ite':
                look(p[2], write)
                look(p[3], write)
                return
            if self.locks:
                return
            if write and p[0] in self.before and self.alone:
                self.problems.append(
                    f'a thread writes {p[0][2]}, which it shares, without a '
                    'lock')
            seen[p] = seen.get(p, False) or write

        def write_raw(s, p, v):
            look(p, True)
            inner[0](s, p, v)

        def write(s, p, v, *a):
            look(p, True)
            inner[1](s, p, v, *a)

        def read(s, p):
            look(p, False)
            return inner[2](s, p)
        e.write_raw, e.write, e.read = write_raw, write, read
        try:
            e.apply_lambda(f, args, st, fr, c)
        finally:
            e.write_raw, e.write, e.read = inner
            self.inside, self.before, self.locks = outer
        if len(fr.exits) > n:
            self.problems.append('an exception leaves the function of a '
                                 'thread')
            del fr.exits[n:]
            st.dead = False

    def which(self, e, c, st, fr):
        v = e.read(st, e.objpath(c, st, fr))
        if v[0] != 'thread':
            raise AnalysisError(f'thread not understood: {v[:1]}')
        return v[1]

    def join(self, e, c, st, fr):
        k = self.which(e, c, st, fr)
        if self.threads[k][2] == 'joined':
            self.problems.append('a thread is joined twice')
        elif self.threads[k][2] == 'created':
            self.start(e, c, k, st, fr)
        self.threads[k][2] = 'joined'
        return VOID

    def models(self):
        m = self

        def emplace(e, c, st, fr):
            if 'std::thread' not in (c.get('cls') or '') and \
                    'std::thread' not in (c['o'].get('t') or ''):
                return None
            v = m.create(e, c, c['a'], st, fr)
            p = e.objpath(c, st, fr)
            old = e.read(st, p)
            if old[0] != 'list':
                raise AnalysisError('list of the threads not understood')
            e.write(st, p, ('list', old[1] + (v, )), fr, c['l'])
            return VOID

        def thread(e, c, st, fr):
            if not c['a']:
                return ('thread', -1)
            if c.get('cm') in ('copy', 'move') or (
                    len(c['a']) == 1 and
                    (c['a'][0].get('t') or '').endswith('std::thread')):
                return e.ev(c['a'][0], st, fr)
            return m.create(e, c, c['a'], st, fr)

        def joinable(e, c, st, fr):
            k = m.which(e, c, st, fr)
            return ('bool', k >= 0 and m.threads[k][2] != 'joined')

        def detach(e, c, st, fr):
            m.problems.append('a thread is detached')
            return VOID

        def work(e, c, st, fr):
            if m.inside is None and m.threads:
                # work of the calling thread
                pass
            m.log.append(tuple(e.ev(x, st, fr) for x in c['a']))
            if len(m.log) - 1 in m.bad:
                fr.exits.append(('throw', st.pc, ('exception', 'verif::bad'),
                                 st.store, c['l']))
                st.dead = True
            return VOID

        def lock(e, c, st, fr):
            a = c['a'][0] if c['a'] else None
            p = e.lv(a, st, fr) if a is not None and a.get('lv') else None
            if p is None or p[0] == 'ite':
                raise AnalysisError('lock not understood')
            if m.inside is not None and p[0] not in m.before:
                return ('new', 'lock')  # not shared: protects nothing
            m.locks.append(p)
            return ('new', 'lock')

        def rethrow(e, c, st, fr):
            v = e.ev(c['a'][0], st, fr)
            if null(v):
                m.problems.append('rethrows no exception')
            fr.exits.append(('throw', st.pc, ('exception', 'verif::bad'),
                             st.store, c['l']))
            st.dead = True
            return VOID

        def mutex(how):
            def f(e, c, st, fr):
                p = e.objpath(c, st, fr)
                if how == 'lock':
                    if m.inside is None or p[0] in m.before:
                        m.locks.append(p)
                elif p in m.locks:
                    m.locks.remove(p)
                return VOID
            return f

        ptr = 'std::__exception_ptr::exception_ptr::'
        out = {
            'verif::work': work,
            'std::vector::emplace_back': emplace,
            'std::vector::push_back': emplace,
            'std::thread::thread': thread,
            'std::thread::join': m.join,
            'std::thread::joinable': joinable,
            'std::thread::detach': detach,
            'std::thread::hardware_concurrency':
                lambda e, c, st, fr: T.num(m.cpus),
            'std::rethrow_exception': rethrow,
            'std::current_exception': lambda e, c, st, fr: ('caught', ),
            'std::ref': lambda e, c, st, fr: (
                'refwrap', e.ptr(e.lv(c['a'][0], st, fr))),
            'std::cref': lambda e, c, st, fr: (
                'refwrap', e.ptr(e.lv(c['a'][0], st, fr))),
            ptr + 'operator bool': lambda e, c, st, fr: (
                'bool', not null(e.read(st, e.objpath(c, st, fr)))),
            'std::mutex::lock': mutex('lock'),
            'std::mutex::unlock': mutex('unlock'),
        }
        for s in ('==', '!='):
            out['std::__exception_ptr::operator' + s] = \
                lambda e, c, st, fr, s=s: compare(e, c, st, fr, s)
        for s in ('lock_guard', 'unique_lock', 'scoped_lock'):
            out[f'std::{s}::{s}'] = lock
        return out


def null(v):
    return v == ('null', ) or v[:1] == ('undef', ) or (
        v[0] == 'new' and 'exception_ptr' in v[1] and
        v[2:] in ((), (('null', ), )))


def compare(e, c, st, fr, s):
    a, b = (e.ev(x, st, fr) for x in c['a'])
    if null(b) == null(a):
        return ('bool', s == '==')
    return ('bool', s == '!=')


def scoped(e, m):
    """Locks are released at the end of the block that takes them."""
    inner = e.block

    def block(ss, st, fr):
        n = len(m.locks)
        try:
            return inner(ss, st, fr)
        finally:
            del m.locks[n:]
    e.block = block


def conflicts(m):
    """Memory written by a thread and used by another one."""
    out = []
    roots = []
    for seen in m.access:
        r = {}
        for p, w in seen.items():
            r.setdefault(p[0], {})[p[1]] = w
        roots.append(r)
    for i, a in enumerate(roots):
        for b in roots[i + 1:]:
            for root in a.keys() & b.keys():
                for s, w in a[root].items():
                    for t, v in b[root].items():
                        if (w or v) and overlap(s, t):
                            out.append((root, s, t))
    return out


def overlap(s, t):
    """Whether two places of an object may be the same."""
    for x, y in zip(s, t):
        if x == y:
            continue
        if x[0] == 'f' and y[0] == 'f':
            return False
        if x[0] == 'i' and y[0] == 'i' and len(x) == len(y) and any(
                u != v and T.const(u) is not None and
                T.const(v) is not None for u, v in zip(x[1:], y[1:])):
            return False
        return True
    return True
