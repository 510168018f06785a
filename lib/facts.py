"""Front end: builds the clang based extractor, runs it over every translation
unit of /repo and merges the resolved syntax trees into one Facts object."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TOOL = os.path.join(VERIF, 'tool')
SPEC = os.path.join(VERIF, 'spec')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG_RES = '/usr/lib/llvm-18/lib/clang/18'


class AnalysisError(Exception):
    """The analysis itself could not be carried out (never a verdict)."""


def _hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def build_tool():
    os.makedirs(CACHE, exist_ok=True)
    key = _hash([os.path.join(TOOL, 'extract.cpp'),
                 os.path.join(TOOL, 'build.sh')])
    exe = os.path.join(CACHE, f'extract-{key}')
    if os.path.exists(exe):
        return exe
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = exe + f'.{os.getpid()}'
        r = subprocess.run(['bash', os.path.join(TOOL, 'build.sh'), tmp],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisError('cannot build the extractor:\n' +
                                r.stderr[-3000:])
        os.rename(tmp, exe)
    return exe


def repo_sources():
    out = []
    for root in ('include', 'src'):
        for d, _, files in os.walk(os.path.join(REPO, root)):
            for f in files:
                if f.endswith(('.hpp', '.cpp', '.h', '.py', '.pyi')):
                    out.append(os.path.join(d, f))
    return out


BASE_FLAGS = ['-std=c++14', '-DNDEBUG', '-resource-dir', CLANG_RES,
              '-isystem', '/usr/include/eigen3', '-w']


def _extract(exe, src, out, extra):
    cmd = [exe, out, f'{REPO}/,{TOOL}/,{SPEC}/', '--'] + BASE_FLAGS + extra + [
        f'-I{REPO}/include', src
    ]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise AnalysisError(f'cannot parse {src}:\n' + r.stderr[-3000:])
    with open(out) as f:
        return json.load(f)


class Facts:
    def __init__(self):
        self.fn = {}          # key -> function
        self.by_name = {}     # qualified name -> [functions]
        self.rec = {}         # record key -> record
        self.enum = {}        # enum name -> {enumerator: value}
        self.globals = {}     # (tu, decl id) -> global var
        self.gname = {}       # name -> global var
        self.units = []
        self.files = set()

    def merge(self, tu, d):
        self.units.append(tu)
        self.files |= set(d['files'])
        for f in d['functions']:
            f['tu'] = tu
            old = self.fn.get(f['key'])
            if old is None or (not old.get('body') and f.get('body')):
                self.fn[f['key']] = f
        for r in d['records']:
            old = self.rec.get(r['key'])
            if old is None or len(old['methods']) < len(r['methods']):
                self.rec[r['key']] = r
        for e in d['enums']:
            self.enum[e['n']] = dict(e['values'])
        for g in d['globals']:
            g['tu'] = tu
            self.globals[(tu, g['d'])] = g
            self.gname.setdefault(g['n'], g)

    def finish(self):
        for f in self.fn.values():
            self.by_name.setdefault(f['n'], []).append(f)
        self.overriders = {}
        for f in self.fn.values():
            for o in f.get('over', []):
                self.overriders.setdefault(o, []).append(f['key'])

    def find(self, name, nparams=None, const=None, tmpl=None, must=True):
        """Functions by qualified name (template arguments of the enclosing
        class included when given)."""
        r = []
        for f in self.fn.values():
            if not f.get('body'):
                continue
            if f['n'] != name and f['key'].split('#')[0] != name:
                continue
            if nparams is not None and len(f['params']) != nparams:
                continue
            if const is not None and f.get('const', False) != const:
                continue
            if tmpl is not None and tmpl not in f['key']:
                continue
            r.append(f)
        if must and not r:
            raise AnalysisError(f'anchor vanished: no definition of {name} '
                                f'({nparams} parameters) in {REPO}')
        return r

    def one(self, name, nparams=None, const=None, tmpl=None):
        r = self.find(name, nparams, const, tmpl)
        if len(r) > 1:
            raise AnalysisError(f'ambiguous anchor {name}: ' +
                                ', '.join(f['key'] for f in r))
        return r[0]


def load(bindings=False):
    exe = build_tool()
    srcs = repo_sources()
    tool = [os.path.join(TOOL, f) for f in ('extract.cpp', 'driver.cpp')]
    cxx = [s for s in srcs if not s.endswith(('.py', '.pyi'))]
    kind = 'b' if bindings else 'l'
    key = kind + _hash(cxx + tool + stub_files() + [os.path.join(HERE, 'facts.py')])
    pk = os.path.join(CACHE, f'facts-{key}.pickle')
    if os.path.exists(pk):
        try:
            with open(pk, 'rb') as f:
                return pickle.load(f)
        except Exception:
            os.unlink(pk)
    jobs = []
    if bindings:
        for s in sorted(cxx):
            if s.endswith('.cpp') and '/src/python/' in s:
                jobs.append((s, STUBS))
    else:
        jobs.append((os.path.join(TOOL, 'driver.cpp'), []))
        for s in sorted(cxx):
            if s.endswith('.cpp') and '/src/library/' in s:
                jobs.append((s, []))
    if len(jobs) < 2:
        raise AnalysisError('no translation unit found')
    facts = Facts()
    tmp = tempfile.mkdtemp(prefix='vfacts')
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(_extract, exe, s, os.path.join(tmp, f'{i}.json'), x)
                    for i, (s, x) in enumerate(jobs)]
            for (s, _), fu in zip(jobs, futs):
                facts.merge(s, fu.result())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    facts.finish()
    for old in glob.glob(os.path.join(CACHE, f'facts-{kind}*.pickle')):
        if len(glob.glob(os.path.join(CACHE, 'facts-*.pickle'))) > 40:
            try:
                os.unlink(old)
            except OSError:
                pass
    tmpf = pk + f'.{os.getpid()}'
    with open(tmpf, 'wb') as f:
        pickle.dump(facts, f)
    os.rename(tmpf, pk)
    return facts


STUBS = ['-isystem', os.path.join(TOOL, 'stubs'),
         '-isystem', '/usr/include/python3.12']


def stub_files():
    return [f for f in glob.glob(os.path.join(TOOL, 'stubs', '**', '*'),
                                 recursive=True) if os.path.isfile(f)]


def spec_data(name, extra=()):
    """The facts of /verif/spec/<name>.cpp."""
    exe = build_tool()
    src = os.path.join(SPEC, name + '.cpp')
    cxx = [s for s in repo_sources() if not s.endswith(('.py', '.pyi'))]
    hdr = glob.glob(os.path.join(SPEC, '*.hpp'))
    key = _hash(cxx + hdr + [src, os.path.join(TOOL, 'extract.cpp'),
                             os.path.join(HERE, 'facts.py')] +
                (stub_files() if extra else []))
    pk = os.path.join(CACHE, f'spec-{name}-{key}.pickle')
    if os.path.exists(pk):
        with open(pk, 'rb') as f:
            d = pickle.load(f)
    else:
        tmp = tempfile.mkdtemp(prefix='vspec')
        try:
            d = _extract(exe, src, os.path.join(tmp, 'o.json'),
                         ['-fno-access-control', f'-I{SPEC}', *extra])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for old in glob.glob(os.path.join(CACHE, f'spec-{name}-*.pickle')):
            os.unlink(old)
        tmpf = pk + f'.{os.getpid()}'
        with open(tmpf, 'wb') as f:
            pickle.dump(d, f)
        os.rename(tmpf, pk)
    return d


def with_spec(facts, name, extra=()):
    """A copy of the facts extended with /verif/spec/<name>.cpp: functions
    probe_* exercise the library through its public interface, functions ref_*
    state what they must compute."""
    src = os.path.join(SPEC, name + '.cpp')
    d = spec_data(name, extra)
    out = Facts()
    for k in ('fn', 'rec', 'enum', 'globals', 'gname'):
        setattr(out, k, dict(getattr(facts, k)))
    out.units = list(facts.units)
    out.files = set(facts.files)
    out.merge(src, d)
    for f in out.fn.values():
        out.by_name.setdefault(f['n'], []).append(f)
    out.overriders = {}
    for f in out.fn.values():
        for o in f.get('over', []):
            out.overriders.setdefault(o, []).append(f['key'])
    return out


if __name__ == '__main__':
    f = load()
    print(len(f.fn), 'functions', len(f.rec), 'records', len(f.units), 'units')
