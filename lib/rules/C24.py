import os
import re
import subprocess

import facts as FA
import ownership as O
from facts import AnalysisError

META = dict(explanation='Ownership over the resolved syntax trees of the '
            'library: every object allocated, or received from a function '
            'that gives an allocated object away (through virtual calls too), '
            'goes straight to one smart pointer or to the caller; no smart '
            'pointer is given an object that has another owner; an object '
            'released through a base class has a virtual destructor there; '
            'classes that refer to memory they do not own are not kept in '
            'other objects; moved, dangling and stack memory by the flow '
            'sensitive checks of clang and clang-tidy.',
            technique='static analysis: ownership and escape rules over the '
            'syntax tree with a fixpoint over the call graph; clang-tidy '
            'data flow for use after move and dangling references',
            assumes='the containers and smart pointers of the standard '
            'library release what they own. The extension module, whose '
            'dependencies are not installed, is not analysed.')
RULES = {
    'owned': 'what is allocated has exactly one owner on every path',
    'leak': 'what is allocated has an owner on every path',
    'twice': 'an object has one owner',
    'destructor': 'an object is destroyed as what it is',
    'kept': 'a reference to memory owned elsewhere is not kept in an object',
    'dangling': 'no use of moved, released or dangling memory',
}
TIDY = ('-*,bugprone-use-after-move,bugprone-dangling-handle,'
        'bugprone-shared-ptr-array-mismatch,bugprone-unused-raii,'
        'bugprone-stringview-nullptr,'
        'clang-diagnostic-dangling*,clang-diagnostic-return-stack-address,'
        'clang-diagnostic-delete-non-virtual-dtor,'
        'clang-diagnostic-delete-abstract-non-virtual-dtor')
WARN = ['-Wdangling', '-Wdangling-gsl', '-Wdangling-field',
        '-Wreturn-stack-address', '-Wdelete-non-virtual-dtor',
        '-Wdelete-abstract-non-virtual-dtor']


def inrepo(f):
    return str(f).startswith(FA.REPO + '/')


def tidy(c, src):
    cmd = ['clang-tidy', '--quiet', '--checks=' + TIDY,
           f'--header-filter={re.escape(FA.REPO)}/.*', src, '--',
           '-std=c++14', '-DNDEBUG', f'-I{FA.REPO}/include', '-isystem',
           '/usr/include/eigen3'] + WARN
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=600,
                       cwd='/')
    if ' error: ' in r.stdout and 'clang-diagnostic-error' in r.stdout:
        raise AnalysisError('clang-tidy: ' + r.stdout[-500:])
    name = os.path.relpath(src, FA.REPO) if inrepo(src) else 'headers'
    bad = False
    for line in r.stdout.splitlines():
        m = re.match(r'(/\S+?):(\d+):\d+: warning: (.*) \[([\w.,-]+)\]', line)
        if m and inrepo(m.group(1)):
            bad = True
            c.fail(f'{name}:{m.group(4)}', 'dangling',
                   f'{os.path.relpath(m.group(1), FA.REPO)}:{m.group(2)}',
                   m.group(3))
    if not bad:
        c.ok(name, 'dangling', 'no diagnostic')


def owners(c):
    F = c.facts()
    o = O.Owners(F, inrepo)
    for f in o.fns:
        c.saw(f)
    unsure = []
    for f, line, rule, what in o.problems:
        where = f"{os.path.relpath(f['file'], FA.REPO)}:{line} ({f['n']})"
        if rule == 'unknown':
            unsure.append(f'{where}: {what}')
        else:
            c.fail(f'{f["n"]}:{rule}', rule, where, what)
    if unsure:
        raise AnalysisError('not decidable: ' + '; '.join(unsure[:3]))
    c.ok('allocations', 'owned', f'{o.sites} places')
    for k in sorted(o.allocs):
        c.ok('gives:' + k.split('#')[0], 'owned', str(sorted(o.allocs[k])))
    c.floor('places that allocate, receive or own', o.sites, 80)
    c.floor('functions that give objects away', len(o.allocs), 6)
    v = O.views(F, inrepo)
    c.floor('classes referring to memory they do not own', len(v), 3)
    for k, r in sorted(F.rec.items()):
        if not inrepo(r.get('file') or '') or k in v:
            continue
        kept = [x['n'] for x in r['fields'] if any(
            re.search(r'(^|[<, ])' + re.escape(w) + r'($|[>, *])', x['t'])
            for w in v)]
        if kept:
            c.fail(f'kept:{k}', 'kept', f"{r['file']}:{r['line']} ({k})",
                   f'{kept[0]} refers to memory that belongs to another '
                   'object')
        else:
            c.ok('kept:' + k, 'kept')
    for f in o.fns:
        for i in f.get('inits') or []:
            if not i.get('e') or not O.raw(i['e'].get('t')):
                continue
            e = O.peel(i['e'])
            if e.get('k') == 'call' and O.smart(e.get('cls')) and \
                    e['n'].endswith('::get'):
                c.fail(f'kept:{f["n"]}', 'kept', f"{f['file']}:{f['line']}",
                       'a member refers to what a smart pointer owns')
        for x, up in O.parents(f['body']):
            if x['k'] == 'call' and x.get('n') in (
                    'std::make_shared', 'std::make_unique') and \
                    O.pointee(x.get('t', '')) in v:
                c.fail(f'kept:{f["n"]}', 'kept', f"{f['file']}:{x['l']}",
                       'an object that refers to memory it does not own '
                       'outlives the call')
            if x['k'] == 'new' and x['nt'] in v or (
                    x['k'] == 'var' and x.get('static') and
                    x.get('t', '').replace('const ', '') in v):
                c.fail(f'kept:{f["n"]}', 'kept', f"{f['file']}:{x['l']}",
                       'an object that refers to memory it does not own '
                       'outlives the call')


def run(c):
    for k, v in RULES.items():
        c.rule(k, v)
    jobs = [lambda: owners(c)]
    for s in [os.path.join(FA.TOOL, 'driver.cpp')] + sorted(
            x for x in FA.repo_sources()
            if x.endswith('.cpp') and '/src/library/' in x):
        jobs.append(lambda s=s: tidy(c, s))
    c.facts()
    c.batch(jobs)
    c.floor('obligations', len(c.obligations), 60)
