"""Build the interpreter from /repo's current working tree into a scratch directory.

Mirrors what the project's build does here: third_party/bigint is absent, so FingerprintLONG.cpp is left out
and the lines of FingerprintStrategy.cpp that name it are blanked.
"""
import os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')

FLAGS = {
    'plain': ['-O0'],
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow,shift,float-cast-overflow,vla-bound',
             '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer'],
}


class BuildError(Exception):
    pass


def build(out, variant='plain', jobs=8, extra_sources=(), defines=(), exclude=()):
    """Returns the path of the interpreter. Its fing directory lies beside bin, as in the repository."""
    src = os.path.join(REPO, 'src')
    obj = os.path.join(out, 'obj')
    os.makedirs(obj, exist_ok=True)
    os.makedirs(os.path.join(out, 'bin'), exist_ok=True)
    sources, incs = [], []
    have_big = os.path.exists(os.path.join(REPO, 'third_party/bigint/src/bigint.cpp'))
    for d, dirs, files in os.walk(src):
        dirs.sort()
        if os.path.basename(d) == 'include':
            incs.append('-I' + d)
        for f in sorted(files):
            if not f.endswith('.cpp'):
                continue
            p = os.path.join(d, f)
            if not have_big and f == 'FingerprintLONG.cpp':
                continue
            if not have_big and f == 'FingerprintStrategy.cpp':
                lines = open(p, encoding='latin-1').read().split('\n')
                gen = os.path.join(obj, 'FingerprintStrategy.cpp')
                with open(gen, 'w', encoding='latin-1') as o:
                    o.write('#line 1 "%s"\n' % p)
                    o.write('\n'.join('' if 'FingerprintLONG' in l else l for l in lines))
                p = gen
                incs.append('-I' + d)
            sources.append(p)
    if have_big:
        sources.append(os.path.join(REPO, 'third_party/bigint/src/bigint.cpp'))
        incs.append('-I' + os.path.join(REPO, 'third_party/bigint/src'))
        incs.append('-I' + os.path.join(REPO, 'third_party/bigint/include'))
    sources = [s for s in sources if os.path.basename(s) not in exclude] + list(extra_sources)
    flags = ['-std=c++2a', '-pthread', '-w'] + incs + FLAGS[variant] + ['-D' + d for d in defines]
    objs = []

    def one(i_s):
        i, s = i_s
        o = os.path.join(obj, '%03d.o' % i)
        r = subprocess.run(['g++'] + flags + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return o, r.returncode, r.stdout.decode('latin-1')
    # the largest first, so that the last jobs are short
    order = sorted(enumerate(sources), key=lambda t: -os.path.getsize(t[1]))
    with ThreadPoolExecutor(jobs) as ex:
        for o, rc, log in ex.map(one, order):
            if rc:
                raise BuildError(log[-4000:])
            objs.append(o)
    exe = os.path.join(out, 'bin', 'funge')
    link = ['g++', '-pthread'] + FLAGS[variant] + objs + ['-o', exe]
    r = None
    if variant == 'plain':
        r = subprocess.run(link + ['-static'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r is None or r.returncode:
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode('latin-1')[-4000:])
    fing = os.path.join(REPO, 'fing')
    if os.path.isdir(fing):
        shutil.copytree(fing, os.path.join(out, 'fing'), dirs_exist_ok=True)
    for o in objs:
        os.unlink(o)
    os.chmod(out, 0o755)
    return exe
