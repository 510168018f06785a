"""Obligations, reports, evidence and exit codes shared by every check."""
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

import absint
import eqv
import facts as FA
import terms as T
from facts import AnalysisError

VERIF = FA.VERIF
REPO = FA.REPO
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
KNOWN = os.path.join(VERIF, 'known-findings.txt')


def rel(path):
    return os.path.relpath(path, REPO) if path.startswith(REPO) else path


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.deadline = time.time() + (780 if tier == 'quick' else 10800)
        self.obligations = []       # (id, rule, detail)
        self.violations = []        # dict
        self.functions = set()      # (file:line, name) analysed
        self.sites = 0
        self.rules = {}
        self.notes = []
        self.errors = []            # parts without a verdict
        self.rtol = 1e-12           # of sampled values, see DESIGN.md
        self._facts = {}
        self._spec = {}

    # -- inputs ---------------------------------------------------------
    def facts(self, bindings=False):
        if bindings not in self._facts:
            self._facts[bindings] = FA.load(bindings)
        return self._facts[bindings]

    def spec(self, name):
        if name not in self._spec:
            import concurrent.futures as cf
            with cf.ThreadPoolExecutor(1) as ex:
                d = ex.submit(FA.spec_data, name)
                f = self.facts()
                d.result()
            self._spec[name] = FA.with_spec(f, name)
        return self._spec[name]

    # -- outcomes -------------------------------------------------------
    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, oid, rule, detail=''):
        self.obligations.append((oid, rule, detail))

    def fail(self, oid, rule, where, detail):
        """One violation: oid names the instance (stable across edits)."""
        self.obligations.append((oid, rule, 'VIOLATED'))
        self.violations.append(dict(instance=oid, rule=rule, where=where,
                                    detail=detail))

    def need(self, cond, oid, rule, where, detail, good=''):
        if cond:
            self.ok(oid, rule, good)
        else:
            self.fail(oid, rule, where, detail)
        return cond

    def floor(self, what, n, least):
        """Instances confirmed by hand: fewer means that the analysis no
        longer sees what it must see."""
        self.notes.append(f'{what}: {n} (at least {least})')
        if n < least:
            raise AnalysisError(f'{what}: only {n} instances found, {least} '
                                'are known')

    def saw(self, fn):
        self.functions.add((f"{rel(fn['file'])}:{fn['line']}", fn['n']))

    # -- value numbering of probe / reference pairs ------------------------
    def engine(self, facts, **kw):
        return absint.Engine(facts, **kw)

    def run(self, facts, fn, args=None, store=None, **kw):
        e = absint.Engine(facts, **kw)
        r = e.run(fn, args=args, store=store)
        self.last = e
        for k in e.inlined:
            f = facts.fn.get(k)
            if f and f['file'].startswith(REPO + '/'):
                self.saw(f)
        return e, r

    def pair(self, facts, probe, ref=None, oid=None, args=None, assume=(),
             domain=None, rule='value', store=None, split=True, sample=None,
             **kw):
        """The probe and the reference must compute equal value numbers and
        throw under the same condition."""
        name = probe['n'].split('::')[-1]
        if ref is None:
            ref = facts.one(probe['n'].replace('probe_', 'ref_'))
        oid = oid or name.replace('probe_', '')
        if sample is not None:
            kw.setdefault('lets', 60)
        e, r = self.run(facts, probe, args, store, **kw)
        inl = self.where_of(facts, e)
        e2, q = self.run(facts, ref, args, store, **kw)
        unk = list(e.unknown) + list(e2.unknown)
        tr = T.lor(*[g for g, _, _ in r.throws]) if r.throws else T.FALSE
        tq = T.lor(*[g for g, _, _ in q.throws]) if q.throws else T.FALSE
        good = True
        bad = []
        if tr != T.FALSE or tq != T.FALSE:
            ok, why, n = eqv.equal(tr, tq, assume, domain,
                                   sample=sample, rtol=self.rtol)
            if not ok:
                bad.append((oid + ':error', 'raises an error ' + why))
            else:
                self.ok(oid + ':error', rule, 'same error condition')
        if tq == T.TRUE:
            pairs = []
        else:
            pairs = self.split(facts, r.value, q.value) if split else \
                [('', r.value, q.value)]
        asm = tuple(assume)
        if tr != T.FALSE and not bad:
            asm = asm + conj(T.lnot(tr))
        raised = ('sym', '#raised')
        nleaf = 0
        for path, a, b in pairs:
            if tr != T.FALSE and tr[0] != 'not' and not bad:
                # where an error is raised there is no value
                a, b = T.ite(tr, raised, a), T.ite(tq, raised, b)
            ok, why, n = eqv.equal(a, b, asm, domain, sample=sample,
                                   rtol=self.rtol)
            nleaf += n
            if not ok:
                bad.append((f'{oid}:{path}' if path else oid,
                            f'{path or "result"} {why}'))
            else:
                self.ok(f'{oid}:{path}' if path else oid, rule,
                        f'equal value numbers, {n} gated leaves')
        if bad and unk:
            raise AnalysisError(
                f'{oid}: {bad[0][1][:400]}; not decidable: construct outside '
                f'the analysed language: {unk[:4]}')
        for o, why in bad:
            good = False
            self.fail(o, rule, inl, why)
        return good

    def split(self, facts, a, b):
        """Pairs of corresponding parts of two aggregates."""
        if b[0] == 'list' and a[0] == 'list' and len(a[1]) == len(b[1]) and \
                len(b[1]) > 1:
            out = []
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                for p, u, v in self.split(facts, x, y):
                    out.append((f'{i}.{p}' if p else str(i), u, v))
            return out
        names = fieldnames(facts, b)
        if not names:
            return [('', a, b)]
        e = absint.Engine(facts)
        out = []
        for k in names:
            for p, x, y in self.split(facts, e.select(a, ('f', k)),
                                      e.select(b, ('f', k))):
                out.append((f'{k}.{p}' if p else str(k), x, y))
        return out

    def job(self, f, i, body):
        """One group of obligations, in a process of its own."""
        self.obligations, self.violations = [], []
        self.functions, err = set(), None
        t0 = time.time()
        try:
            body()
            if os.environ.get('VERIF_TIMES'):
                print(f'{time.time() - t0:7.1f} s', i,
                      [o[0] for o in self.obligations][:1],
                      file=sys.stderr, flush=True)
        except AnalysisError as ex:
            err = ('A', str(ex))
        except Exception:
            err = ('E', traceback.format_exc())
        data = pickle.dumps((i, self.obligations, self.violations,
                             self.functions, err))
        f.write(len(data).to_bytes(8, 'little') + data)
        f.flush()

    def batch(self, jobs, workers=8):
        """Runs independent obligations in parallel processes."""
        jobs = list(jobs)
        workers = min(workers, len(jobs))
        kids = {}
        for w in range(workers):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                with os.fdopen(wr, 'wb') as f:
                    for i in range(w, len(jobs), workers):
                        self.job(f, i, jobs[i])
                os._exit(0)
            os.close(wr)
            kids[rd] = [pid, b'']
        out = []
        found = None
        while kids:
            # once there is a violation, the rest is given a minute
            end = self.deadline if found is None else min(
                self.deadline, found + 60)
            ready = select.select(list(kids), [], [],
                                  max(0, end - time.time()))[0]
            if not ready:
                for rd, (pid, _) in kids.items():
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(rd)
                break
            for rd in ready:
                data = os.read(rd, 1 << 20)
                if not data:
                    os.waitpid(kids.pop(rd)[0], 0)
                    os.close(rd)
                    continue
                buf = kids[rd][1] + data
                while len(buf) >= 8:
                    n = int.from_bytes(buf[:8], 'little')
                    if len(buf) < 8 + n:
                        break
                    out.append(pickle.loads(buf[8:8 + n]))
                    buf = buf[8 + n:]
                    if out[-1][2] and found is None:
                        found = time.time()
                kids[rd][1] = buf
        if len(out) < len(jobs):
            late = len(jobs) - len(out)
            out.append((len(jobs), [], [], set(), (
                'A', f'{late} of {len(jobs)} groups of obligations were not '
                'decided in time')))
        errs = []
        for i, ob, vi, fn, err in sorted(out, key=lambda x: x[0]):
            self.obligations += ob
            self.violations += vi
            self.functions |= fn
            if err:
                errs.append(err)
        self.errors += errs

    def global_value(self, facts, name):
        """Elements of a constant array of a specification."""
        e = absint.Engine(facts)
        g = facts.gname[name]
        v = e.root_init(('glob', g['n'], (g['tu'], g['d'])))
        return list(v[1])

    def where_of(self, facts, e):
        out = []
        for k in sorted(e.inlined):
            f = facts.fn.get(k)
            if f and f['file'].startswith(REPO + '/'):
                s = f"{rel(f['file'])}:{f['line']} ({f['n']})"
                if s not in out:
                    out.append(s)
        return '; '.join(out[:8]) or 'repository'

    def pairs(self, spec, only=None, floor=1, **kw):
        facts = self.spec(spec)
        jobs = []
        for f in sorted(facts.fn.values(), key=lambda f: f['key']):
            if not f['n'].startswith('verif::probe_'):
                continue
            short = f['n'][len('verif::probe_'):]
            if only and not only(short):
                continue
            jobs.append(lambda f=f: self.pair(facts, f, **kw))
        n = len(jobs)
        self.batch(jobs)
        self.floor(f'probe/reference pairs of spec/{spec}.cpp', n, floor)


def conj(t):
    """Literals of a conjunction."""
    if t == T.TRUE:
        return ()
    if t[0] == 'and':
        out = ()
        for x in t[1:]:
            out += conj(x)
        return out
    return (t, )


def fieldnames(facts, v):
    """Field names of a value of one of the aggregate types of the specs."""
    while isinstance(v, tuple) and v and v[0] == 'ite':
        v = v[2]
    if isinstance(v, tuple) and v and v[0] == 'agg' and \
            v[1].startswith('verif::'):
        r = facts.rec.get(v[1])
        if r:
            return [f['n'] for f in r['fields']]
        return [n for n, _ in v[3]]
    return None


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=' + prop + ' '):
                rest = line[len('finding: property=' + prop + ' '):]
                inst, _, text = rest.partition(' ')
                assert inst.startswith('instance=')
                out[inst[len('instance='):]] = text
    return out


def main(prop, tier, body, meta):
    t0 = time.time()
    c = Ctx(prop, tier)
    try:
        body(c)
        if c.errors and not c.violations:
            raise AnalysisError('; '.join(e[1] for e in c.errors)[:4000])
        if not c.obligations:
            raise AnalysisError('no obligation was generated')
    except AnalysisError as ex:
        if not c.violations:
            print(f'ANALYSIS-ERROR property={prop} {ex}')
            return 2
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-ERROR property={prop} internal error')
        return 2
    known = known_findings(prop)
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    rc = 0
    nk = 0
    fresh = []
    for v in c.violations:
        if v['instance'] in known:
            nk += 1
            print(f"KNOWN-FINDING: property={prop} {v['instance']}: "
                  f"{known[v['instance']]}")
        else:
            fresh.append(v)
    if fresh:
        rc = 1
        path = os.path.join(EVID, 'replay', f'{prop}.txt')
        with open(path, 'w') as f:
            for v in fresh:
                f.write(f"property:  {prop}\ninstance:  {v['instance']}\n"
                        f"rule:      {v['rule']}: "
                        f"{c.rules.get(v['rule'], '')}\n"
                        f"construct: {v['where']}\nfinding:   {v['detail']}\n\n")
        for v in fresh[:6]:
            print(f"  {v['where'][:300]}: [{v['rule']}] {v['instance']}: "
                  f"{v['detail'][:600]}")
        print(f'VIOLATION property={prop} replay={path}')
    byrule = {}
    for o, r, d in c.obligations:
        byrule[r] = byrule.get(r, 0) + 1
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')),
        level='other',
        coverage=dict(
            explanation=meta['explanation'],
            obligations=len(c.obligations),
            discharged=len(c.obligations) - len(c.violations),
            known_findings=nk,
            obligations_by_rule=byrule,
            rules=c.rules,
            instance_counts=c.notes,
            functions_analysed=len(c.functions),
            functions=sorted(f'{w} {n}' for w, n in c.functions)[:400],
            samples=[f'{r}: {o} - {d}' for o, r, d in c.obligations[:12]],
        ),
        wall_s=round(time.time() - t0, 2))
    with open(os.path.join(EVID, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        print(f'OK property={prop} obligations={len(c.obligations)} '
              f'functions={len(c.functions)} known={nk} '
              f'wall={ev["wall_s"]}s')
    return rc
