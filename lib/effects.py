"""Objects that a call only reads: models of verif::keep and verif::finish."""
import terms as T

VOID = ('void', )


def owned(e, st, p):
    """Roots of the memory of an object and of what it points to."""
    out, todo, seen = {}, [p], set()
    while todo:
        p = todo.pop()
        if p[0] == 'ite':
            todo += [p[2], p[3]]
            continue
        if p[0] in out:
            continue
        out[p[0]] = st.store.get(p[0])
        stack = [out[p[0]]]
        while stack:
            v = stack.pop()
            if not isinstance(v, tuple) or id(v) in seen:
                continue
            seen.add(id(v))
            if len(v) >= 2 and v[0] == 'ptr':
                todo.append(e.deref(v))
            stack.extend(x for x in v if isinstance(x, tuple))
    return out


def names(steps):
    return ''.join('.' + str(s[1]) if s[0] == 'f' else '[...]'
                   for s in steps)


class Kept:
    def __init__(self):
        self.roots = {}
        self.problems = []
        self.calls = self.size = 0

    def keep(self, e, c, st, fr):
        for a in c['a']:
            if a.get('lv'):
                self.roots.update(owned(e, st, e.lv(a, st, fr)))
        self.calls += 1
        self.size += len(self.roots)
        return VOID

    def finish(self, e, c, st, fr):
        for r, v in self.roots.items():
            if st.store.get(r) is not v and st.store.get(r) != v:
                self.note(r, ())
        self.roots = {}
        return VOID

    def note(self, root, steps, fr=None):
        why = f'{root[2] if len(root) > 2 else root[1]}{names(steps)} is ' \
              'modified'
        if why not in self.problems:
            self.problems.append(why)

    def look(self, p):
        if p[0] == 'ite':
            self.look(p[2])
            self.look(p[3])
        elif p[0] in self.roots:
            self.note(p[0], p[1])

    def watch(self, e):
        raw, write = e.write_raw, e.write

        def write_raw(s, p, v):
            self.look(p)
            raw(s, p, v)

        def written(s, p, v, *a):
            self.look(p)
            write(s, p, v, *a)
        e.write_raw, e.write = write_raw, written

    def models(self):
        return {'verif::keep': self.keep, 'verif::finish': self.finish}
