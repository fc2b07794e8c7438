#!/usr/bin/env python3
"""mutate.py gen N            prepares N cases per check in /tmp/mut/cases
mutate.py run N [seed] [re]  makes N random small changes in the files of /repo/src whose path matches re, and runs the prepared cases
                             against each until one fails; what no case notices is listed in /tmp/mut/survivors.txt
mutate.py tests              runs the repository's tests against each listed survivor (in a copy)

Measures how much the checks notice; no check uses it."""
import sys, os, re, json, random, pickle, subprocess, shutil, time, importlib, signal, resource
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from lib import engine, build as B
M = '/tmp/mut'
REPO = '/repo'
SRC = REPO + '/src'
IDS = [i for i in range(1, 32) if i not in (25, 27)]


def prop(i):
    return importlib.import_module('checks.c%02d' % i).PROP


def gen(n):
    shutil.rmtree(M + '/cases', ignore_errors=True)
    os.makedirs(M + '/cases')
    exe = B.build(M + '/base')
    jobs = [(i, w) for i in IDS for w in range(4)]
    from multiprocessing import Pool
    with Pool(8) as p:
        for i, w, k in p.imap_unordered(gen1, [(i, w, n, exe) for i, w in jobs]):
            print(i, w, k, flush=True)


def gen1(t):
    i, w, n, exe = t
    p = prop(i)
    p.exes = {v: exe for v in p.variants}
    p.setup(os.path.dirname(os.path.dirname(exe)))
    k = n // 10 if i == 29 else n
    out = []
    for j in range(w, k, 4):
        src = engine.Src(rng=random.Random('mut/%d/%d' % (i, j)))
        try:
            c = p.gen(src)
        except (engine.Discard, RecursionError):
            continue
        try:
            out.append(pickle.dumps(c))
        except Exception:
            for x in list(c):
                if x.startswith('_'):
                    try:
                        pickle.dumps(c[x])
                    except Exception:
                        del c[x]
            out.append(pickle.dumps(c))
    pickle.dump(out, open('%s/cases/%02d-%d' % (M, i, w), 'wb'))
    return i, w, len(out)


def load():
    d = {}
    for i in IDS:
        a = [pickle.load(open('%s/cases/%02d-%d' % (M, i, w), 'rb')) for w in range(4)]
        d[i] = [x for t in zip(*a) for x in t]
    return d


RULES = [
    (r' == ', [' != ']), (r' != ', [' == ']), (r'(?<=[\w)\]]) < (?=[\w(\-])', [' <= ', ' > ']), (r' <= ', [' < ']), (r'(?<=[\w)\]]) > (?=[\w(\-])', [' >= ', ' < ']), (r' >= ', [' > ']),
    (r'(?<=\w)<(?=\w+[;)])', ['<=']),
    (r'(?<=[\w)\]]) ?\+ ?(?=[\w(])', [' - ']), (r'(?<=[\w)\]]) ?(?<!-)- ?(?=[\w(])', [' + ']), (r' \* ', [' + ']), (r' / ', [' * ']), (r' % ', [' / ']),
    (r'\+\+', ['--']), (r'--', ['++']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'!(?=[a-z(])', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'(?<![\w.\'])(\d+)(?![\w.\'])', ['N+1', 'N-1']), (r'\bERROR_NONE\b', ['ERROR_UNSPEC']), (r'\bERROR_UNSPEC\b', ['ERROR_NONE']), (r'\bERROR_NOTAVAIL\b', ['ERROR_NONE']),
    (r'\bERROR_SKIP\b', ['ERROR_NONE']), (r'\btop\(\)', ['second()']), (r'\bsecond\(\)', ['top()']), (r'std::min', ['std::max']), (r'std::max', ['std::min']),
    (r'(?<= )& ', ['| ']), (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']), (r'\bsize\(\)-1', ['size()']), (r"'(.)'", ["'z'"]), (r'\bpos\b', ['storage']), (r'getDelta', ['getPos']),
]


def candidates(rx, rng):
    out = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            if not f.endswith('.cpp') or f == 'FingerprintLONG.cpp' or not re.search(rx, rel):
                continue
            lines = open(p, encoding='latin-1').read().split('\n')
            for ln, l in enumerate(lines):
                s = l.strip()
                if not s or s.startswith(('//', '#', '*', '/*', '@')) or ('case ' in s and s.endswith(':')) or 'setHelp' in s or 'std::cerr' in s:
                    continue
                code = l.split('//')[0]
                for r, reps in RULES:
                    for m in re.finditer(r, code):
                        if code[:m.start()].count('"') % 2:
                            continue
                        for rep in reps:
                            if rep in ('N+1', 'N-1'):
                                rep = str(int(m.group(1)) + (1 if rep == 'N+1' else -1))
                                if rep == '-1':
                                    continue
                            if rep == m.group(0):
                                continue
                            out.append((rel, ln, l[:m.start()] + rep + l[m.end():]))
                if s.endswith(';') and not re.match(r'(return|break|continue|using|\w+ \w+;|virtual|}|case|default|auto|const|int |size_t |stack_t |Vector |inst_t |double |std::string |bool |char )', s):
                    out.append((rel, ln, re.match(r'\s*', l).group(0) + ';'))
                    out.append((rel, ln, re.match(r'\s*', l).group(0) + ';'))
                m = re.match(r'(\s*(?:\}else )?)if\((.*)\)\{$', l)
                if m:
                    out.append((rel, ln, m.group(1) + 'if(true || (' + m.group(2) + ')){'))
                    out.append((rel, ln, m.group(1) + 'if(false && (' + m.group(2) + ')){'))
    return out


def compile_all():
    """Objects of the unchanged tree, kept."""
    os.makedirs(M + '/obj', exist_ok=True)
    incs, srcs = [], []
    for d, dirs, files in os.walk(SRC):
        if os.path.basename(d) == 'include':
            incs.append('-I' + d)
        for f in files:
            if f.endswith('.cpp') and f != 'FingerprintLONG.cpp':
                srcs.append(os.path.join(d, f))
    incs.append('-I' + SRC)
    flags = ['-std=c++2a', '-pthread', '-w', '-O0'] + incs
    from concurrent.futures import ThreadPoolExecutor

    def one(s):
        return cc(s, flags, M + '/obj/' + os.path.basename(s) + '.o')
    with ThreadPoolExecutor(8) as ex:
        for ok in ex.map(one, srcs):
            assert ok is None, ok
    return srcs, flags


def cc(s, flags, o, text=None):
    if text is None:
        text = open(s, encoding='latin-1').read()
    if os.path.basename(s) == 'FingerprintStrategy.cpp':
        text = '\n'.join('' if 'FingerprintLONG' in l else l for l in text.split('\n'))
    r = subprocess.run(['g++'] + flags + ['-I' + os.path.dirname(s), '-x', 'c++', '-c', '-', '-o', o], input=text.encode('latin-1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.stdout.decode('latin-1') if r.returncode else None


def mutant(k, mut, srcs, flags):
    rel, ln, new = mut
    p = os.path.join(REPO, rel)
    lines = open(p, encoding='latin-1').read().split('\n')
    lines[ln] = new
    d = '%s/m%d' % (M, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/bin')
    e = cc(p, flags, d + '/m.o', '\n'.join(lines))
    if e:
        return None
    objs = [M + '/obj/' + os.path.basename(s) + '.o' for s in srcs if s != p] + [d + '/m.o']
    r = subprocess.run(['g++', '-pthread', '-static'] + objs + ['-o', d + '/bin/funge'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return None
    shutil.copytree(REPO + '/fing', d + '/fing')
    os.unlink(d + '/m.o')
    return d


def evaluate(d, order, cases, limit):
    """In a child process: the first check with a confirmed failure."""
    root = '/dev/shm/mut-%d' % os.getpid()
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    os.chmod(root, 0o777)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.setsid()
        signal.signal(signal.SIGXCPU, lambda *_: None)

        def alarm(*_):
            raise TimeoutError()
        signal.signal(signal.SIGALRM, alarm)
        res = None
        try:
            for i in order:
                prop(i).exes = {v: d + '/bin/funge' for v in prop(i).variants}
                prop(i).setup(d)
            class L: limit_cpu = 2; limit_as = 64 << 30
            engine._limits(L)
            engine._drop()
            ex = engine.Executor(d + '/bin/funge', root + '/w', {'plain': d + '/bin/funge'}) if not os.mkdir(root + '/w') else None
            ex.wall = 4.0
            end = time.time() + limit
            for i in order:
                for j, c in enumerate(cases[i]):
                    if time.time() > end:
                        break
                    case = pickle.loads(c)
                    msg = prop(i).check(case, ex)
                    if msg and prop(i).check(pickle.loads(c), ex):
                        res = (i, j, msg[:200])
                        break
                if res:
                    break
            if not res and time.time() > end:
                res = (0, 0, 'time')
        except BaseException as e:
            res = (0, 0, 'error %r' % e)
        os.write(w, json.dumps(res).encode())
        os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    shutil.rmtree(root, ignore_errors=True)
    return json.loads(data) if data else (0, 0, 'died')


def one(t):
    k, mut, srcs, flags, order = t
    d = mutant(k, mut, srcs, flags)
    if d is None:
        return mut, 'no build'
    try:
        ks = KILLS.setdefault(mut[0], {})
        order = sorted(ks, key=lambda i: -ks[i]) + [i for i in order if i not in ks]
        res = evaluate(d, order, CASES, 240)
        if res and res[0]:
            ks[res[0]] = ks.get(res[0], 0) + 1
        return mut, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(n, seed, rx):
    global CASES
    CASES = load()
    rng = random.Random(seed)
    srcs, flags = compile_all()
    cand = sorted(set(candidates(rx, rng)))
    done = set()
    if os.path.exists(M + '/log.txt'):
        for l in open(M + '/log.txt'):
            x = json.loads(l)
            done.add(tuple(x[0]))
    # as many from each line
    rng.shuffle(cand)
    seen = {}
    cand = [c for c in cand if c not in done]
    cand.sort(key=lambda c: (seen.setdefault(c[:2], 0), seen.__setitem__(c[:2], seen[c[:2]] + 1))[0])
    cand = cand[:n]
    print(len(cand), 'mutants')
    base = [1, 2, 3, 4, 5, 6, 13, 10, 24, 7, 8, 9, 11, 12, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 26, 28, 30, 31, 29]
    from concurrent.futures import ThreadPoolExecutor
    import multiprocessing as mp
    log = open(M + '/log.txt', 'a')
    cnt = {'killed': 0, 'survived': 0, 'no build': 0, 'time': 0}
    ctx = mp.get_context('fork')
    with ctx.Pool(8) as pool:
        def tasks():
            for k, m in enumerate(cand):
                name = re.search(r'Fingerprint([A-Z]{4})\.', m[0])
                extra = []
                if name:
                    extra = [i for i in IDS if any(name.group(1) in a for a in ANCH.get(i, []))]
                order = list(extra)
                order += [i for i in base if i not in order]
                yield k, m, srcs, flags, order
        for mut, res in pool.imap_unordered(one, tasks()):
            if res == 'no build':
                cnt['no build'] += 1
            elif res is None:
                cnt['survived'] += 1
            elif res[0] == 0:
                cnt['time'] += 1
            else:
                cnt['killed'] += 1
            log.write(json.dumps([mut, res]) + '\n')
            log.flush()
            if res is None or res[0] == 0:
                old = open(os.path.join(REPO, mut[0]), encoding='latin-1').read().split('\n')[mut[1]]
                with open(M + '/survivors.txt', 'a') as f:
                    f.write('%s:%d %s\n  - %s\n  + %s\n' % (mut[0], mut[1] + 1, '' if res is None else res[2], old.strip(), mut[2].strip()))
            print(cnt, flush=True)


ANCH = {}
KILLS = {}
for l in open(VERIF + '/properties.jsonl'):
    x = json.loads(l)
    ANCH[int(x['id'][1:])] = re.findall(r'Fingerprint\w+', json.dumps(x))

if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(int(sys.argv[2]))
    elif sys.argv[1] == 'run':
        run(int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1, sys.argv[4] if len(sys.argv) > 4 else '.')
