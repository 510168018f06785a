#!/usr/bin/env python3
"""plant.py SPEC.py [ids]: makes seeded/<id> from edits, in a scratch copy.

SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old,
new)], demo=C++ source or Python source (demo_py))]."""
import json, os, shutil, subprocess, sys, runpy

WT = '/tmp/wt'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Runs in the repository, after its build: 0 when the behaviour is right.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r -- "$tmp"' EXIT
g++ -std=c++14 -O1 -I"$PWD/include" -isystem /usr/include/eigen3 \\
  "$here/demo.cpp" "$PWD/_build/libfes.a" -lpthread -o "$tmp/demo"
timeout 120 "$tmp/demo"
'''
PY = '''#!/bin/bash
# Runs in the repository, after its build: 0 when the behaviour is right.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
timeout 120 python3-vt "$here/demo.py" "$PWD"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def build():
    r = sh(f'. /opt/vp/env.sh; cd {WT} && cmake -S . -B _build -G Ninja '
           '-DCMAKE_BUILD_TYPE=RelWithDebInfo -DFES_ENABLE_TEST=ON '
           '-DFES_BUILD_PYTHON_BINDINGS=OFF '
           f'-DEXECUTABLE_OUTPUT_PATH={WT}/_build/bin >/dev/null && '
           'ninja -C _build -j8')
    return r.returncode == 0, (r.stdout + r.stderr)[-3000:]


def tests():
    r = sh(f'ctest --test-dir {WT}/_build -j8 --timeout 120')
    return r.returncode == 0, ' '.join(l for l in r.stdout.splitlines() if '(Failed)' in l)


def main():
    spec = runpy.run_path(sys.argv[1])
    want = sys.argv[2:]
    os.makedirs(WT, exist_ok=True)
    sh(f'cd /repo && (git ls-files; echo include/fes/version.hpp) | '
       f'rsync -a --checksum --files-from=- /repo/ {WT}/' if shutil.which('rsync') else
       f'cd /repo && (git ls-files; echo include/fes/version.hpp) | '
       f'tar cf - -T - | tar xf - -C {WT}')
    todo = {}

    def restore():
        for fn in todo:
            shutil.copyfile('/repo/' + fn, f'{WT}/{fn}')
        todo.clear()

    for b in spec['BUGS']:
        if want and b['id'] not in want:
            continue
        d = f"{VERIF}/seeded/{b['id']}"
        if not want and os.path.exists(d + '/meta.json'):
            continue
        restore()
        tmp = f"/tmp/plant/{b['id']}"
        os.makedirs(tmp, exist_ok=True)
        py = 'demo_py' in b
        with open(tmp + ('/demo.py' if py else '/demo.cpp'), 'w') as f:
            f.write((b['demo_py'] if py else b['demo']).lstrip('\n'))
        with open(tmp + '/demo.sh', 'w') as f:
            f.write(PY if py else SH)
        ok, out = build()
        if not ok:
            print(b['id'], 'clean build fails', out); return
        r = sh(f'bash {tmp}/demo.sh', cwd=WT)
        if r.returncode:
            print(b['id'], 'DEMO FAILS ON CLEAN', r.stdout[-500:], r.stderr[-2500:])
            continue
        bad = False
        for fn, old, new in b['edits']:
            s = open(f'{WT}/{fn}').read()
            if s.count(old) != 1:
                print(b['id'], 'edit matches', s.count(old), fn, old[:80]); bad = True
                break
            todo[fn] = 1
            open(f'{WT}/{fn}', 'w').write(s.replace(old, new))
        if bad:
            continue
        diff = ''.join(sh(f'diff -u --label a/{fn} --label b/{fn} /repo/{fn} '
                          f'{WT}/{fn}').stdout for fn in todo)
        if not py or any(not e[0].endswith('.py') for e in b['edits']):
            ok, out = build()
            if not ok:
                print(b['id'], 'DOES NOT BUILD', out); continue
            ok, out = tests()
            if not ok:
                print(b['id'], 'TESTS FAIL', out); continue
        r = sh(f'bash {tmp}/demo.sh', cwd=WT)
        if r.returncode == 0:
            print(b['id'], 'DEMO DOES NOT FAIL', r.stdout[-500:]); continue
        os.makedirs(d, exist_ok=True)
        for fn in os.listdir(tmp):
            shutil.copy(f'{tmp}/{fn}', d)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=b['property'], needs=b['needs'],
                       what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'),
                  indent=1)
        env = dict(os.environ, VERIF_REPO=WT)
        r2 = sh(f"./check {b['property']}", cwd=VERIF, env=env) if \
            os.path.exists(f"{VERIF}/lib/rules/{b['property']}.py") else None
        print(b['id'], 'planted;', r.stdout[-100:].strip(), r.stderr[-60:].strip(), '| check:',
              'none' if r2 is None else (r2.returncode, r2.stdout[-300:]))
    restore()


main()
