"""Who owns the objects made with new, over the resolved syntax trees."""
import re

SMART = re.compile(r'^(const )?std::(unique_ptr|shared_ptr|__shared_ptr)<')
CALLS = ('call', 'callptr')


def smart(t):
    return bool(SMART.match(t or ''))


def pointee(t):
    t = (t or '').replace('const ', '')
    i = t.find('<')
    depth, out = 0, ''
    for ch in t[i + 1:]:
        if ch == '<':
            depth += 1
        if ch in ',>' and depth == 0:
            break
        if ch == '>':
            depth -= 1
        out += ch
    return out.strip()


def raw(t):
    """Pointer to an object (not to a member or a function)."""
    t = (t or '').strip()
    t = re.sub(r'(\s*const)+$', '', t)
    return t.endswith('*') and '::*' not in t and '(' not in t


def kids(x):
    for k, v in x.items():
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for y in v:
                if isinstance(y, dict):
                    yield y
                elif isinstance(y, list):
                    for z in y:
                        if isinstance(z, dict):
                            yield z


def parents(root):
    """Every node with the chain of the nodes that contain it."""
    todo = [(root, ())]
    while todo:
        x, up = todo.pop()
        if 'k' in x:
            yield x, up
            up = up + (x, )
        for y in kids(x):
            todo.append((y, up))


def peel(x):
    while x.get('k') in ('cast', 'paren') and isinstance(x.get('e'), dict):
        x = x['e']
    return x


class Owners:
    def __init__(self, F, where):
        self.F = F
        self.fns = [f for f in F.fn.values()
                    if f.get('body') and where(f['file'])]
        self.allocs = {}    # owning functions: classes they allocate
        self.problems = []  # (function, line, rule, what)
        self.sites = 0
        self.over = {}
        for f in F.fn.values():
            for o in f.get('over', []):
                self.over.setdefault(o, set()).add(f['key'])
        self.overall(self.fixpoint)
        self.overall(self.check)

    def overall(self, f):
        f()

    # -- functions that give what they allocate away
    def targets(self, key):
        out, todo = set(), [key]
        while todo:
            k = todo.pop()
            if k not in out:
                out.add(k)
                todo += self.over.get(k, ())
        return out

    def owning(self, x):
        """Classes of the object the expression gives away, or None."""
        if x.get('k') == 'new':
            return {x['nt']} if x.get('size') is None else {x['nt'] + '[]'}
        if x.get('k') in CALLS:
            n = x.get('n') or ''
            if n.endswith('::release') and smart(x.get('cls')):
                return {pointee(x['cls'])}
            out = set()
            for k in self.targets(x.get('f')):
                out |= self.allocs.get(k, set())
            return out or None
        if x.get('k') == 'cond':
            out = set()
            for y in kids(x):
                out |= self.owning(peel(y)) or set()
            return out or None
        return None

    def fixpoint(self):
        more = True
        while more:
            more = False
            for f in self.fns:
                if not raw(f.get('ret')):
                    continue
                for x, up in parents(f['body']):
                    if x['k'] != 'return' or not x.get('e') or any(
                            u['k'] == 'lambda' for u in up):
                        continue
                    e = peel(x['e'])
                    a = self.owning(e)
                    if a is None and e['k'] == 'ref':
                        a = self.local(f, e)
                    if a and not a <= self.allocs.get(f['key'], set()):
                        self.allocs.setdefault(f['key'], set()).update(a)
                        more = True

    def local(self, f, ref):
        """What the local pointer named is initialised with, if it owns it."""
        for x, up in parents(f['body']):
            if x['k'] == 'var' and x.get('d') == ref.get('d') and \
                    isinstance(x.get('init'), dict) and raw(x.get('t')):
                return self.owning(peel(x['init']))
        return None

    # -- rules
    def bad(self, f, x, rule, what):
        self.problems.append((f, x.get('l', f['line']), rule, what))

    def check(self):
        for f in self.fns:
            for x, up in parents(f['body']):
                k = x['k']
                if k == 'new' or (k in CALLS and self.owning(x)):
                    self.sites += 1
                    self.given(f, x, up)
                if k == 'ctor' and smart(x.get('cls')) or (
                        k in CALLS and smart(x.get('cls')) and
                        (x.get('n') or '').endswith('::reset')):
                    self.taken(f, x)
                if k == 'delete':
                    self.sites += 1
                    self.deleted(f, x)
            for i in f.get('inits') or []:
                pass

    def given(self, f, x, up):
        """The owner of what the expression allocates."""
        y = x
        for u in reversed(up):
            k = u['k']
            if k in ('cast', 'paren') or (k == 'cond' and u.get('c') is not y):
                y = u
                continue
            if k == 'ctor' and smart(u.get('cls')):
                return
            if k in CALLS and smart(u.get('cls')) and \
                    (u.get('n') or '').endswith('::reset'):
                return
            if k in CALLS and re.search(r'::emplace(_back|_front)?$',
                                        u.get('n') or '') and \
                    smart(pointee(u.get('cls'))):
                return
            if k == 'return':
                if any(v['k'] == 'lambda' for v in up):
                    return
                if f['key'] in self.allocs:
                    return
                break
            if k == 'var' and raw(u.get('t')):
                self.variable(f, u, up)
                return
            if k == 'delete':
                return
            if k == 'block' or k == 'lambda':
                break
            if k == 'init':
                y = u
                continue
            break
        self.bad(f, x, 'leak', 'nothing owns what '
                 f'{"new" if x["k"] == "new" else x.get("n")} gives')

    def variable(self, f, var, up):
        """A local pointer that owns: it must be handed over before anything
        can be raised."""
        uses = []
        for x, w in parents(f['body']):
            if x['k'] == 'ref' and x.get('d') == var['d']:
                y = x
                for u in reversed(w):
                    if u['k'] in ('cast', 'paren'):
                        y = u
                        continue
                    if (u['k'] == 'ctor' and smart(u.get('cls'))) or \
                            u['k'] in ('delete', 'return') or (
                                u['k'] in CALLS and smart(u.get('cls')) and
                                (u.get('n') or '').endswith('::reset')):
                        uses.append((u, w))
                    break
        if not uses:
            return self.bad(f, var, 'leak', f'{var["n"]} is never released')
        blocks = [u for u in up if u['k'] == 'block']
        block = blocks[-1]
        here = [i for i, s in enumerate(block['s']) if s and inside(s, var)]
        ends = []
        for u, w in uses:
            at = [i for i, s in enumerate(block['s']) if s and inside(s, u)]
            if not at:
                return self.unsure(f, var)
            nested = any(v['k'] in ('if', 'for', 'while', 'do', 'switch',
                                    'lambda', 'rangefor', 'try')
                         for v in w if v is not block and
                         inside(block['s'][at[0]], v))
            ends.append((at[0], nested))
        ends.sort()
        if any(n for _, n in ends):
            return self.unsure(f, var)
        if len(ends) > 1:
            return self.bad(f, var, 'twice', f'{var["n"]} is given to two '
                            'owners')
        for s in block['s'][here[0] + 1:ends[0][0]]:
            for x, _ in parents(s):
                if x['k'] in CALLS + ('ctor', 'throw', 'return', 'new'):
                    return self.bad(f, var, 'leak', f'{var["n"]} is lost if '
                                    'an exception is raised, or on an early '
                                    'return, before it has an owner')

    def unsure(self, f, var):
        self.bad(f, var, 'unknown', f'owner of {var["n"]}')

    def taken(self, f, x):
        """What a smart pointer is given to own."""
        a = [y for y in x.get('a', ())]
        if not a:
            return
        e = peel(a[0])
        t = e.get('t', '')
        if smart(t) or e['k'] == 'null' or 'nullptr_t' in t:
            self.converted(f, x, e)
            return
        if len(a) > 1 and not raw(a[1].get('t')) and raw(t) and \
                smart(x.get('cls')):
            return          # own deleter
        if len(a) > 1 and smart(peel(a[0]).get('t')):
            return          # aliasing
        if not raw(t):
            return
        self.sites += 1
        what = self.owning(e)
        if what is None and e['k'] == 'ref':
            what = self.local(f, e)
        if what is None:
            self.bad(f, x, 'twice', f'{x["cls"]} owns an object that has '
                     'another owner')
            return
        base = pointee(x['cls'])
        # std::shared_ptr deletes through the type it is given
        through = base if 'unique_ptr' in x['cls'] else \
            re.sub(r'\s*\*.*$', '', t.replace('const ', ''))
        self.destroy(f, x, through, what)

    def converted(self, f, x, e):
        """unique_ptr of a derived class moved to one of the base."""
        if 'unique_ptr' in x.get('cls', '') and 'unique_ptr' in e.get('t', ''):
            self.destroy(f, x, pointee(x['cls']), {pointee(e['t'])})

    def destroy(self, f, x, base, what):
        base = base.strip()
        if base.endswith('[]'):
            base = base[:-2]
        r = self.F.rec.get(base)
        for w in what:
            arr = w.endswith('[]')
            w = w[:-2] if arr else w
            if arr != ('[]' in x.get('cls', '')):
                self.bad(f, x, 'twice', f'an array of {w} is released as one '
                         'object')
            if w == base or r is None:
                continue
            if not self.virtual(base):
                self.bad(f, x, 'destructor', f'an object of {w} is released '
                         f'as {base}, whose destructor is not virtual')

    def virtual(self, cls):
        r = self.F.rec.get(cls)
        if r is None:
            return True
        for m in r['methods']:
            if m['n'].startswith('~'):
                if m.get('virt'):
                    return True
        return any(self.virtual(b['n'] if isinstance(b, dict) else b)
                   for b in r.get('bases', ()))

    def deleted(self, f, x):
        e = peel(x['e'])
        if e['k'] == 'ref' and self.local(f, e):
            return
        if self.owning(e):
            return
        self.bad(f, x, 'unknown' if e['k'] == 'mem' else 'twice',
                 'delete of an object that has another owner')


def inside(s, x):
    if s is x:
        return True
    return any(inside(y, x) for y in kids(s))


BORROW = re.compile(r'^(const )?(std::basic_string_view|fes::string_view|'
                    r'Eigen::(Ref|Map)<)')


def borrows(t):
    """The type refers to memory it does not own."""
    t = t or ''
    return (raw(t) and '__normal_iterator' not in t and
            'FILE' not in t) or t.rstrip().endswith('&') or \
        bool(BORROW.match(t))


def views(F, where):
    """Classes with a part that refers to memory they do not own."""
    out = {}
    for k, r in F.rec.items():
        if where(r.get('file') or ''):
            for fl in r['fields']:
                if borrows(fl['t']):
                    out.setdefault(k, []).append(fl['n'])
    return out
