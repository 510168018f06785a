#!/usr/bin/env python3
"""mutate.py N SEED [file substring]: N random single edits of the library that
compile and pass the tests, analysed by the checks of their file. Development
only: finds gaps, prints the mutants no check reports."""
import os, random, re, shutil, subprocess, sys

WT = os.environ.get('MUT_WT', '/tmp/mw')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    ('include/fes/abstract_tidal_model.hpp', 'C07 C19 C12 C14 C10 C24 C11 C16'),
    ('include/fes/axis.hpp', 'C15 C13 C12 C14 C16'),
    ('src/library/axis.cpp', 'C15 C13 C12 C14 C16'),
    ('include/fes/tidal_model/cartesian.hpp', 'C16 C13 C12 C14 C19 C10'),
    ('include/fes/detail/grid.hpp', 'C16 C13 C12 C14'),
    ('include/fes/tidal_model/lgp.hpp', 'C17 C19 C13 C12 C14 C10'),
    ('include/fes/mesh/index.hpp', 'C26 C13 C12 C14 C17'),
    ('src/library/mesh/index.cpp', 'C26 C13 C12 C14 C17'),
    ('include/fes/geometry/ecef.hpp', 'C18 C26'),
    ('include/fes/geometry/point.hpp', 'C18 C26'),
    ('include/fes/geometry/triangle.hpp', 'C18 C26 C17'),
    ('src/library/geometry/triangle.cpp', 'C18 C26 C17'),
    ('include/fes/detail/geometry/algorithm.hpp', 'C26 C18'),
    ('include/fes/detail/thread.hpp', 'C09'),
    ('include/fes/detail/serialize.hpp', 'C13 C12 C24'),
    ('include/fes/detail/isviewstream.hpp', 'C13 C12'),
    ('include/fes/detail/broadcast.hpp', 'C14'),
    ('include/fes/tide.hpp', 'C07 C11 C23 C14 C10'),
    ('include/fes/settings.hpp', 'C07 C19 C14'),
    ('include/fes/wave/table.hpp', 'C05 C23 C01 C11 C14 C10 C06'),
    ('src/library/wave/table.cpp', 'C06 C23 C05 C01 C11 C14 C10'),
    ('src/library/wave/long_period_equilibrium.cpp', 'C08 C07 C10'),
    ('include/fes/wave/long_period_equilibrium.hpp', 'C08 C07 C10'),
    ('include/fes/detail/math.hpp', 'C18 C04 C15 C03 C08'),
    ('src/library/constituent.cpp', 'C01'),
    ('include/fes/constituent.hpp', 'C01'),
    ('include/fes/angle/astronomic.hpp', 'C04 C03 C05'),
    ('include/fes/wave.hpp', 'C02 C05 C01'),
    ('include/fes/string_view.hpp', 'C13 C12'),
]
SWAP = [('<=', '<'), ('>=', '>'), ('==', '!='), ('!=', '=='), ('&&', '||'),
        ('||', '&&'), (' + ', ' - '), (' - ', ' + '), (' * ', ' / '),
        (' / ', ' * '), ('+=', '-='), ('-=', '+='), ('true', 'false'),
        ('false', 'true'), ('std::min', 'std::max'), ('std::max', 'std::min'),
        ('floor', 'ceil'), ('std::sin', 'std::cos'), ('std::cos', 'std::sin'),
        ('lon', 'lat'), ('lat', 'lon'), ('first', 'second'),
        ('second', 'first'), ('begin', 'end'), ('xi', 'nu'), ('x_', 'y_'),
        ('y_', 'x_'), ('real', 'imag'), ('imag', 'real'), ('++', '--'),
        (' < ', ' <= '), (' > ', ' >= '), (' < ', ' > '), ('continue', 'break'),
        ('break', 'continue'), ('rows', 'cols'), ('cols', 'rows'), ('.x()', '.y()'),
        ('i1', 'i2'), ('i2', 'i1'), ('x1', 'x2'), ('y1', 'y2'), ('x2', 'x1'),
        ('const auto&', 'const auto'), ('front', 'back'), ('back()', 'front()'),
        ('short_period', 'long_period'), ('h_long', 'h'), ('size()', 'size() - 1'),
        ('row', 'col'), ('!', ''), ('&', '')]


def code_lines(src):
    out, block = [], False
    for n, l in enumerate(src):
        s = l.strip()
        if block:
            block = '*/' not in s
            continue
        if s.startswith('/*'):
            block = '*/' not in s
            continue
        if not s or s.startswith(('//', '#', 'namespace', 'using', 'template',
                                  '}', 'public', 'private', 'class', 'struct')):
            continue
        out.append(n)
    return out


def mutate(rnd, line):
    body = line.split('//')[0].rstrip('\n')
    opts = []
    for a, b in SWAP:
        pat = re.escape(a)
        if a[0].isalnum():
            pat = r'(?<![A-Za-z0-9_:])' + pat if not a.startswith('std') else pat
        if a[-1].isalnum():
            pat += r'(?![A-Za-z0-9])'
        for m in re.finditer(pat, body):
            opts.append(body[:m.start()] + b + body[m.end():])
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', body):
        v = int(m.group(1))
        for d in ([v + 1, v - 1] if v > 0 else [v + 1]):
            opts.append(body[:m.start()] + str(d) + body[m.end():])
    for m in re.finditer(r'(?<![\w.])(\d+\.\d*(e-?\d+)?)(?![\w.])', body):
        v = float(m.group(1))
        opts.append(body[:m.start()] + repr(v * 1.001 if v else 1e-3) +
                    body[m.end():])
    # two arguments exchanged
    for m in re.finditer(r'\(([\w.\->]+), ([\w.\->]+)\)', body):
        if m.group(1) != m.group(2):
            opts.append(body[:m.start()] + f'({m.group(2)}, {m.group(1)})' +
                        body[m.end():])
    if re.match(r'\s+[\w.\->\[\]()]+( [-+*/]?= |\(|\.|\+\+).*;$', body) and \
            not re.match(r'\s+(return|throw|delete)', body):
        opts += [re.match(r'\s*', body).group(0) + '(void)0;'] * 3
    return rnd.choice(opts) + '\n' if opts else None


def sh(cmd):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True)


def build():
    r = sh(f'. /opt/vp/env.sh; cd {WT} && cmake -S . -B _build -G Ninja '
           '-DCMAKE_BUILD_TYPE=Debug -DFES_ENABLE_TEST=ON '
           '-DFES_BUILD_PYTHON_BINDINGS=OFF '
           f'-DEXECUTABLE_OUTPUT_PATH={WT}/_build/bin >/dev/null && '
           'ninja -C _build -j6')
    return r.returncode == 0


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else ['']
    rnd = random.Random(seed)
    os.makedirs(WT, exist_ok=True)
    sh(f'cd /repo && (git ls-files; echo include/fes/version.hpp) | '
       f'tar cf - -T - | tar xf - -C {WT}')
    assert build()
    files = [f for f in MAP if any(o in f[0] for o in only)]
    size = [len(code_lines(open('/repo/' + f).readlines())) for f, _ in files]
    # big tables weigh less
    weight = [s ** 0.5 for s in size]
    done = tried = 0
    while done < n:
        f, props = rnd.choices(files, weight)[0]
        src = open('/repo/' + f).readlines()
        k = rnd.choice(code_lines(src))
        new = mutate(rnd, src[k])
        if not new or new == src[k]:
            continue
        tried += 1
        out = list(src)
        out[k] = new
        open(f'{WT}/{f}', 'w').writelines(out)
        ok = False
        if build():
            t = sh(f'timeout 100 ctest --test-dir {WT}/_build -j6 --timeout 20')
            ok = t.returncode == 0
        if ok:
            done += 1
            hit = None
            why = ''
            for p in props.split():
                r = subprocess.run(
                    [HERE + '/check', p], capture_output=True, text=True,
                    cwd=HERE, env=dict(os.environ, VERIF_REPO=WT,
                                       VERIF_EVIDENCE='/tmp/mut_evidence'))
                if r.returncode == 1:
                    hit = p
                    break
                if r.returncode != 0:
                    why += f' {p}:rc{r.returncode} ' + (r.stdout + r.stderr)[-150:]
            print('CAUGHT ' + hit if hit else 'MISSED', f'{f}:{k+1}',
                  '|', src[k].strip(), '=>', new.strip(), why, flush=True)
        shutil.copyfile('/repo/' + f, f'{WT}/{f}')
    print('tried', tried)


main()
