"""Property-based testing engine: recorded choices, parallel search, confirmation, shrinking, replay and evidence."""
import os, sys, json, time, random, signal, resource, tempfile, shutil, hashlib, traceback, select, errno

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOBODY = 65534


class Discard(Exception):
    """The choices do not make a case of the property's domain."""


class Src:
    """A source of choices. Every choice is recorded, so that a case is a function of its list of choices."""
    __slots__ = ('rec', 'pos', 'rng', 'cap')

    def __init__(self, rec=None, rng=None, cap=20000):
        self.rec = list(rec) if rec is not None else []
        self.pos = 0
        self.rng = rng
        self.cap = cap

    def n(self, n):
        """An integer in [0, n)."""
        p = self.pos
        if p < len(self.rec):
            v = self.rec[p]
            if v >= n:
                v = v % n
                self.rec[p] = v
        else:
            if p >= self.cap:
                raise Discard('too many choices')
            v = self.rng.randrange(n) if self.rng is not None else 0
            self.rec.append(v)
        self.pos = p + 1
        return v

    def int(self, lo, hi):
        """An integer in [lo, hi], shrinking towards lo."""
        return lo + self.n(hi - lo + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den, shrinking towards False."""
        return self.n(den) >= den - num

    def pick(self, seq):
        return seq[self.n(len(seq))]

    def weighted(self, items):
        """items: list of (weight, value); shrinks towards the first."""
        total = 0
        for w, _ in items:
            total += w
        r = self.n(total)
        for w, v in items:
            if r < w:
                return v
            r -= w
        return items[-1][1]

    def perm(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.n(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def mark(self):
        return self.pos

    def reset(self, mark=0):
        self.pos = mark


class Result:
    __slots__ = ('code', 'sig', 'out', 'err', 'hung', 'cpu')

    def __init__(self, code, sig, out, err, hung, cpu=0.0):
        self.code, self.sig, self.out, self.err, self.hung, self.cpu = code, sig, out, err, hung, cpu

    def end(self):
        if self.hung:
            return 'did not end'
        if self.sig:
            return 'killed by signal %d' % self.sig
        return 'exit code %d' % self.code


class Executor:
    """Runs the interpreter in a scratch directory of its own, as an unprivileged user with limits."""

    def __init__(self, exe, workdir, exes=None):
        self.exe = exe
        self.exes = exes or {'plain': exe}
        self.work = workdir
        self.cwd = os.path.join(workdir, 'cwd')
        os.makedirs(self.cwd, exist_ok=True)
        self.fo = os.open(os.path.join(workdir, 'stdout'), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        self.fe = os.open(os.path.join(workdir, 'stderr'), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        self.fi = os.open(os.path.join(workdir, 'stdin'), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        self.runs = 0
        self.wall = 15.0
        os.chdir(self.cwd)

    def clean(self):
        for n in os.listdir(self.cwd):
            p = os.path.join(self.cwd, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)

    def put(self, name, data):
        p = os.path.join(self.cwd.encode(), name.encode('latin-1'))
        if '/' in name:
            os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, str):
            data = data.encode('latin-1')
        fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.write(fd, data)
        os.close(fd)

    def get(self, name):
        try:
            with open(os.path.join(self.cwd.encode(), name.encode('latin-1')), 'rb') as f:
                return f.read().decode('latin-1')
        except OSError:
            return None

    def run(self, args, stdin='', env=None, wall=None, variant=None):
        os.chdir(self.cwd)
        self.runs += 1
        for fd in (self.fo, self.fe, self.fi):
            os.ftruncate(fd, 0)
            os.lseek(fd, 0, 0)
        if stdin:
            os.write(self.fi, stdin.encode('latin-1') if isinstance(stdin, str) else stdin)
            os.lseek(self.fi, 0, 0)
        exe = self.exes[variant] if variant else self.exe
        args = [a.encode('latin-1') for a in args]
        pid = os.posix_spawn(exe, [exe] + list(args), {k.encode('latin-1'): v.encode('latin-1') for k, v in (env or {}).items()},
                             file_actions=[(os.POSIX_SPAWN_DUP2, self.fi, 0), (os.POSIX_SPAWN_DUP2, self.fo, 1),
                                           (os.POSIX_SPAWN_DUP2, self.fe, 2)], setpgroup=0,
                             setsigdef=[signal.SIGXCPU, signal.SIGXFSZ, signal.SIGTERM, signal.SIGALRM])
        late = []

        def stop(*_):
            late.append(1)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
        signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, wall or self.wall, 0.5)
        _, status, ru = os.wait4(pid, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        # it may have ended by itself just then
        hung = bool(late) and os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL
        try:
            os.killpg(pid, signal.SIGKILL)    # anything it left running
        except OSError:
            pass
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -1
        if sig in (signal.SIGXCPU, signal.SIGXFSZ):
            hung = True
        n = os.fstat(self.fo).st_size
        out = os.pread(self.fo, min(n, 1 << 20), 0).decode('latin-1') if n else ''
        n = os.fstat(self.fe).st_size
        err = os.pread(self.fe, min(n, 1 << 16), 0).decode('latin-1') if n else ''
        self.err = err
        return Result(code, sig, out, err, hung, ru.ru_utime + ru.ru_stime)


class Prop:
    id = None
    rule = ''
    quick = 4000           # cases per run, all workers together
    thorough = 60000
    quick_time = 100       # seconds after which no new case is begun
    thorough_time = 600
    variants = ('plain',)
    limit_as = 3 << 30
    limit_cpu = 4
    assumptions = []
    jobs = 8

    def setup(self, out):
        """Called once, after the build and before the workers: may add files to the build directory."""

    def gen(self, src):
        raise NotImplementedError

    def check(self, case, ex):
        """None, or a text that says how the case fails."""
        raise NotImplementedError

    def nontrivial(self, case):
        return True

    def labels(self, case):
        return []

    def key(self, case):
        return json.dumps({k: v for k, v in case.items() if not k.startswith('_')}, sort_keys=True, default=str)

    def sample(self, case):
        return {k: v for k, v in case.items() if not k.startswith('_')}

    def aggregate(self, notes):
        """notes: list of (index, note) the cases left in case['_note']. None, or a text for a failure over all cases."""
        return None


def _limits(prop):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
    soft = prop.limit_cpu
    resource.setrlimit(resource.RLIMIT_CPU, (soft, resource.RLIM_INFINITY))
    if prop.limit_as:
        resource.setrlimit(resource.RLIMIT_AS, (prop.limit_as, prop.limit_as))


def _drop():
    if os.getuid() == 0:
        try:
            os.setgroups([])
            os.setgid(NOBODY)
        except OSError:
            pass
        os.setuid(NOBODY)


def _try(prop, rec, ex):
    """Regenerate from choices and check. Returns (case, failure, choices used)."""
    src = Src(rec)
    try:
        case = prop.gen(src)
    except (Discard, RecursionError):
        return None, None, None
    return case, prop.check(case, ex), src.rec[:src.pos]


def confirm(prop, case, ex, n=3):
    """A failure counts when it comes again. A run that did not end has to not end every time."""
    msgs = [prop.check(case, ex) for _ in range(n)]
    bad = [m for m in msgs if m]
    if len(bad) == n:
        return bad[-1]
    if bad and not any('did not end' in m for m in bad):
        # not every time: count how often
        msgs += [prop.check(case, ex) for _ in range(12)]
        bad = [m for m in msgs if m and 'did not end' not in m]
        if len(bad) >= 3:
            return bad[-1] + ' (in %d of %d runs)' % (len(bad), len(msgs))
    return None


def shrink(prop, rec, ex, seconds):
    end = time.time() + seconds
    best = list(rec)

    def fails(cand):
        if time.time() > end:
            return None
        try:
            case, msg, used = _try(prop, cand, ex)
        except Exception:
            return None
        if msg:
            return used
        return None

    def better(a, b):
        return (len(a), a) < (len(b), b)
    improved = True
    while improved and time.time() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = len(best) - size
            while i >= 0 and time.time() < end:
                used = fails(best[:i] + best[i + size:])
                if used is not None and better(used, best):
                    best = used
                    improved = True
                    i = min(i, len(best) - size)
                else:
                    i -= size
            size //= 2
        i = 0
        while i < len(best) and time.time() < end:
            if best[i]:
                for v in (0, best[i] // 2, best[i] - 1):
                    if v >= best[i]:
                        continue
                    used = fails(best[:i] + [v] + best[i + 1:])
                    if used is not None and better(used, best):
                        best = used
                        improved = True
                        break
            i += 1
    return best


def _worker(prop, w, nw, ncases, deadline, seed, exes, root, conn, start=0):
    stop = [False]

    def term(*_):
        stop[0] = True

    signal.signal(signal.SIGTERM, term)
    signal.signal(signal.SIGXCPU, lambda *_: None)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    res = {'cases': 0, 'discards': 0, 'keys': [], 'labels': {}, 'samples': [], 'runs': 0, 'flaky': [], 'fail': None,
           'notes': [], 'error': None}
    try:
        _limits(prop)
        _drop()
        work = os.path.join(root, 'w%d' % w)
        os.mkdir(work)
        ex = Executor(exes[prop.variants[0]], work, exes)
        if getattr(prop, 'wall', None):
            ex.wall = prop.wall
        keys = set()
        i = w
        while i < ncases and time.time() < deadline and not stop[0]:
            rng = random.Random('%s/%d/%d' % (prop.id, seed, i))
            src = Src(rng=rng)
            case = None
            try:
                case = prop.gen(src)
            except (Discard, RecursionError):
                res['discards'] += 1
            if case is not None:
                case['_index'] = i
                msg = prop.check(case, ex)
                res['cases'] += 1
                for l in prop.labels(case):
                    res['labels'][l] = res['labels'].get(l, 0) + 1
                if prop.nontrivial(case):
                    keys.add(hashlib.blake2b(prop.key(case).encode('utf-8', 'surrogatepass'), digest_size=8).hexdigest())
                    if len(res['samples']) < 2 and res['cases'] % 7 == 1:
                        res['samples'].append(prop.sample(case))
                if '_note' in case:
                    res['notes'].append(case['_note'])
                if msg:
                    rec = src.rec[:src.pos]
                    again = confirm(prop, case, ex)
                    if again:
                        os.write(conn, b'F')    # tells the others to stop
                        hangs = 'did not end' in again
                        if hangs:
                            ex.wall = 5.0
                        best = shrink(prop, rec, ex, 25 if not hangs else 30)
                        ex.wall = getattr(prop, 'wall', None) or 15.0
                        c2, m2, _ = _try(prop, best, ex)
                        m2 = confirm(prop, c2, ex) if m2 else None
                        if not m2:
                            best, c2, m2 = rec, case, again
                        res['fail'] = {'index': i, 'message': m2, 'choices': best,
                                       'case': {k: v for k, v in c2.items() if not k.startswith('_')}}
                        break
                    res['flaky'].append({'index': i, 'message': msg[:500]})
            i += nw
        res['keys'] = sorted(keys)
        res['runs'] = ex.runs
    except Exception:
        res['error'] = traceback.format_exc()
    data = json.dumps(res).encode()
    with open(os.path.join(root, 'res%d.json' % w), 'wb') as f:
        f.write(data)
    os.write(conn, b'D')


def known_findings(pid):
    """Lines of known_findings.txt: 'known: property=<id> case=<replay file> <what fails>'."""
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2].strip()
                f, what = rest.split(' ', 1)
                out.append((os.path.join(VERIF, f.split('=', 1)[1]), what))
    return out


def run(prop, tier, seed, replay=None, exe=None, ncases=None, keep=False):
    from . import build as B
    t0 = time.time()
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and shutil.disk_usage('/dev/shm').free > (1 << 30) else '/tmp'
    root = tempfile.mkdtemp(prefix='verif-%s-' % prop.id, dir=base)
    os.chmod(root, 0o777)
    bdir = tempfile.mkdtemp(prefix='verif-build-%s-' % prop.id, dir='/tmp')
    os.chmod(bdir, 0o755)
    children = []
    try:
        exes = {}
        if exe:
            exes = {v: exe for v in prop.variants}
        else:
            for v in prop.variants:
                try:
                    exes[v] = B.build(os.path.join(bdir, v), v)
                except B.BuildError as e:
                    print('build failed:\n%s' % e)
                    return 2
        tb = time.time() - t0
        prop.exes = exes
        prop.setup(os.path.dirname(os.path.dirname(exes[prop.variants[0]])))
        if replay:
            return do_replay(prop, replay, exes, root)
        n = ncases or (prop.quick if tier == 'quick' else prop.thorough)
        deadline = time.time() + (prop.quick_time if tier == 'quick' else prop.thorough_time)
        nw = prop.jobs
        r, wfd = os.pipe()
        # known findings and the regression cases first, in a worker of their own
        for w in range(nw):
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    _worker(prop, w, nw, n, deadline, seed, exes, root, wfd)
                finally:
                    os._exit(0)
            children.append(pid)
        os.close(wfd)
        done = 0
        hard = deadline + 150
        told = False
        while done < nw:
            left = hard - time.time()
            if left <= 0:
                break
            rl, _, _ = select.select([r], [], [], left)
            if not rl:
                break
            b = os.read(r, 1)
            if b == b'':
                break
            if b == b'D':
                done += 1
            elif b == b'F' and not told:
                told = True
                for c in children:
                    try:
                        os.kill(c, signal.SIGTERM)
                    except OSError:
                        pass
        for c in children:
            if done < nw:
                try:
                    os.kill(c, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(c, 0)
        children = []
        os.close(r)
        results = []
        for w in range(nw):
            p = os.path.join(root, 'res%d.json' % w)
            if os.path.exists(p):
                results.append(json.load(open(p)))
        errs = [x['error'] for x in results if x['error']]
        if errs or not results:
            print('the check itself failed:\n%s' % (errs[0] if errs else 'no worker reported'))
            return 2
        known_msgs = []
        for f, what in known_findings(prop.id):
            if do_replay(prop, f, exes, root, quiet=True) == 1:
                known_msgs.append(what)
                print('KNOWN-FINDING: property=%s %s' % (prop.id, what))
        keys = set()
        labels = {}
        notes = []
        for x in results:
            keys.update(x['keys'])
            notes += x['notes']
            for k, v in x['labels'].items():
                labels[k] = labels.get(k, 0) + v
        fails = sorted([x['fail'] for x in results if x['fail']], key=lambda f: f['index'])
        agg = None
        if not fails:
            agg = prop.aggregate(notes)
            if agg:
                fails = [{'index': -1, 'message': agg, 'choices': [], 'case': {'aggregate': True, 'notes': notes[:2000]}}]
        cases = sum(x['cases'] for x in results)
        samples = [s for x in results for s in x['samples']][:5]
        ev = {
            'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': cases, 'distinct_nontrivial': len(keys), 'rule': prop.rule,
                'samples': samples or ['none'],
                'discarded': sum(x['discards'] for x in results),
                'interpreter_runs': sum(x['runs'] for x in results),
                'classes': dict(sorted(labels.items())),
                'not_confirmed': [y for x in results for y in x['flaky']][:5],
                'build_s': round(tb, 2),
            },
            'assumptions': prop.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(fails),
        }
        if known_msgs:
            ev['coverage']['known_findings'] = known_msgs
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if fails:
            f0 = fails[0]
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            h = hashlib.blake2b(json.dumps(f0['case'], sort_keys=True, default=str).encode('utf-8', 'surrogatepass'), digest_size=5).hexdigest()
            path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop.id, h))
            with open(path, 'w') as f:
                json.dump({'property': prop.id, 'seed': seed, 'tier': tier, 'index': f0['index'], 'message': f0['message'],
                           'choices': f0['choices'], 'case': f0['case']}, f, indent=1)
            print(f0['message'])
            print('VIOLATION property=%s replay=%s' % (prop.id, path))
            return 1
        print('%s: held on %d cases (%d distinct non-trivial, %d discarded), %d runs, %.1f s (build %.1f s)' % (
            prop.id, cases, len(keys), ev['coverage']['discarded'], ev['coverage']['interpreter_runs'], time.time() - t0, tb))
        return 0
    finally:
        for c in children:
            try:
                os.kill(c, signal.SIGKILL)
                os.waitpid(c, 0)
            except OSError:
                pass
        shutil.rmtree(root, ignore_errors=True)
        if not keep:
            shutil.rmtree(bdir, ignore_errors=True)


def do_replay(prop, path, exes, root, quiet=False):
    """Run one saved case, without the generator, in a process without privileges."""
    with open(path) as f:
        d = json.load(f)
    if d['case'].get('aggregate'):
        m = prop.aggregate(d['case']['notes'])
        if not quiet:
            print(m or 'the case passes')
        return 1 if m else 0
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = b'E'
        try:
            os.close(r)

            signal.signal(signal.SIGXCPU, lambda *_: None)
            _limits(prop)
            _drop()
            work = tempfile.mkdtemp(dir=root)
            ex = Executor(exes[prop.variants[0]], work, exes)
            msg = prop.check(d['case'], ex)
            if msg and not quiet:
                print(msg)
                sys.stdout.flush()
            code = b'1' if msg else b'0'
        except Exception:
            traceback.print_exc()
        finally:
            os.write(w, code)
            os._exit(0)
    os.close(w)
    b = os.read(r, 1)
    os.close(r)
    os.waitpid(pid, 0)
    if b == b'1':
        if not quiet:
            print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    if b == b'0':
        if not quiet:
            print('the case passes')
        return 0
    return 2
