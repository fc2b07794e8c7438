from lib.fpgen import *
from lib.debug98 import DebugModel, RUN, START


def vtext(src, v):
    v = list(v)
    while len(v) > 1 and v[-1] == 0 and src.n(3):
        v.pop()
    return '(' + src.pick([', ', ',', ' , ']).join(map(str, v)) + ')'


def somewhere(src, m):
    D = m.dims
    k = src.n(6)
    ip = m.shown
    if k == 0:
        v = [src.int(-3, 12) for _ in range(D)]
    elif k == 1:
        v = list(ip.pos[:D])
    elif k < 5:
        n = src.int(1, 12)
        v = [a + n * b for a, b in zip(ip.pos[:D], ip.delta[:D])]
    else:
        v = list(src.pick(sorted(m.f.c))[:D]) if m.f.c else [0] * D
    return v


class Script:
    """Chooses the commands; afterwards lines holds them."""

    def __init__(self, src, limit, wild):
        self.src, self.limit, self.wild, self.lines = src, limit, wild, []
        self.plan = []

    def __call__(self, m):
        c = self.choose(m)
        self.lines.append(c)
        if m.prompts > 3000:
            raise Budget('prompts')
        return c

    def choose(self, m):
        src = self.src
        n = len(self.lines)
        if n >= self.limit:
            if m.intick and (self.wild or n > self.limit + 40):
                return src.pick(['quit', 'q'])
            return src.pick(['run', 'c'])
        D = m.dims
        if self.plan:
            return self.plan.pop(0)
        if len(m.threads) > 1 and src.n(12) == 11:
            # stop one thread, go on with another
            ip = m.shown
            at = [vtext(src, [a + n * b for a, b in zip(ip.pos[:D], ip.delta[:D])]) for n in (1, 2, 3)]
            self.plan = ['bp ' + at[0], 'bp ' + at[1]] + (['bp ' + at[2]] if src.n(2) else []) + [src.pick('csc')] * src.int(1, len(m.threads)) + ['t %d' % src.pick(sorted(m.threads)), src.pick('ccs')]
            return self.plan.pop(0)
        k = src.weighted([(14, 'step'), (2, 'run'), (3, 'peek'), (2, 'delta'), (1, 'storage'), (1, 'pos'), (2, 'thread'), (2, 'bt'), (2, 'get'), (2, 'list'), (3, 'break'),
                          (3, 'watch'), (2, 'read'), (1, 'universe'), (1, 'setpos'), (1, 'setdelta'), (1, 'junk')])
        if k == 'step':
            return src.pick(['step', 'stp', 's'])
        if k == 'run':
            return src.pick(['run', 'r', 'continue', 'con', 'c'])
        if k == 'peek':
            ss = m.shown.ss if m.shown is not None else ()
            if ss and src.n(3) == 2:
                i = src.n(len(ss))
                deep = len(ss[-1 - i].s)
                return 'p %d %d' % (src.int(max(1, deep - 6), deep + 1) if src.n(2) else src.int(1, deep + 1), i)
            return src.pick(['peek', 'p']) + src.pick(['', ' 1', ' 2', ' 1 0', ' 1 1', ' 3 1', ' 0', ' 100', ' 1 7', ' 2 2'])
        if k == 'delta':
            return src.pick(['delta', 'dir', 'd'])
        if k == 'storage':
            return 'storage'
        if k == 'pos':
            return src.pick(['pos', 'position'])
        if k == 'thread':
            return src.pick(['thread', 't']) + src.pick(['', '', ' %d' % src.int(0, max(m.threads) + 1)])
        if k == 'bt':
            return src.pick(['bt', 'backtrace'])
        if k in ('get', 'list'):
            s = src.pick([k, k[0]])
            if k == 'get' and src.n(4):
                s += ' ' + vtext(src, somewhere(src, m))
                if not src.n(2):
                    return s
            if k == 'list' or ' ' in s:
                if src.n(2):
                    ax = (0, 1) if D < 3 or src.n(3) else src.pick([(0, 1), (1, 0), (0, 2), (2, 1), (2, 0)])
                    z = [0] * max(ax + (D - 1, 1))
                    z += [0] * (3 - len(z))
                    z[ax[0]], z[ax[1]] = src.int(0, 4), src.int(0, 3)
                    s += ' ' + vtext(src, z)
                    if ax != (0, 1) or src.n(3) == 0:
                        s += ' (%d, %d)' % ax
            return s
        if k in ('break', 'watch'):
            short = {'break': 'bp', 'watch': 'wp'}[k]
            if src.n(8) == 7:
                return src.pick([k, short])
            return src.pick([k, short]) + ' ' + vtext(src, somewhere(src, m))
        if k == 'read':
            return 'read ' + vtext(src, somewhere(src, m))
        if k == 'universe':
            return src.pick(['universe', 'u']) + src.pick(['', '', ' p.b98', ' p.b9', ' p.b98 x'])
        if k == 'junk':
            return src.pick(['', 'help', 'x y', '  ', 'get (1', 'Step'][:4])
        if not self.wild or not m.intick:
            return 's'
        if k == 'setpos':
            return 'setpos ' + vtext(src, somewhere(src, m))
        v = [src.pick([0, 1, -1, 2]) for _ in range(D)]
        if not any(v):
            v[0] = 1
        return 'setdelta ' + vtext(src, v)


def where(lz, m, ip):
    src = lz.src
    D = m.dims
    n = src.int(0, 8)
    v = [a + n * b for a, b in zip(ip.pos[:D], ip.delta[:D])] if src.n(3) else [src.int(-2, 9) for _ in range(D)]
    return vec(v) + src.pick('AAW')


def deep(lz, m, ip):
    """Many cells at once."""
    return '"%s"' % ''.join(lz.src.pick('abcxyz') for _ in range(lz.src.int(10, 30)))


def put(lz, m, ip):
    src = lz.src
    D = m.dims
    v = [src.int(-2, 3) for _ in range(D)]
    p = num(src.pick([48, 46, 122, 65, 32, 1000, -1])) + vec([a - b for a, b in zip(v, ip.storage)]) + 'p'
    return p


class P(FungeProp):
    id = 'C23'
    rule = ('Funge-98 programs under the debugger (-g, or switched on by DBUG), driven by scripts of commands chosen with the state at each prompt: steps and runs, break- and watchpoints, '
            'displays of stacks, deltas, positions, threads, backtraces and areas, and changes of position and delta. All output and the exit code compared with a model of the debugger around the '
            'model of the language. Non-trivial: at least five prompts.')
    quick = 9000
    thorough = 100000
    quick_time = 60

    def gen(self, src):
        dims = src.weighted([(6, 2), (1, 1), (2, 3)])
        cfg = Config(dims=dims, K=3)
        dbug = src.n(3) == 2
        t = [(5, I.digit), (3, I.show), (3, put), (2, I.arith), (2, I.shuffle), (2, I.direction3), (2, 't'), (1, lambda lz, m, ip: lz.src.pick('FGHX\x7f\x80\xff')), (1, I.iterate), (1, I.begin), (1, I.end),
             (1, I.string), (1, deep), (1, I.fetch), (1, I.store), (1, '#'), (1, I.decision), (1, I.charout), (1, 'z'), (1, I.over), (1, 'r' if dims < 2 else ']')]
        if dbug:
            t += [(3, 'E'), (1, 'D'), (4, 'B'), (5, where)]
        box = {1: (120,), 2: (60, 4), 3: (40, 3, 2)}[dims]
        byarg = dbug and src.n(2)
        if byarg:
            cfg.fingerprints = [fpid('DBUG')]
        moded = src.n(8) == 7
        if moded:
            cfg.fingerprints = cfg.fingerprints + [fpid('MODE')]
            t += [(3, 'Q'), (2, 'I')]
        always = not dbug or src.n(2)

        def prog(lz, m):
            if dbug and not byarg:
                lz.pending[0] = list(loadcode('DBUG') + '$$')
        text, m, lz = build(src, cfg, box, t, src.pick([8, 20, 50]), fingers=FINGERS, prog=prog, space=1, escape=6, max_moves=8000, datachars='aZ09 .+@z\xff\x80!"')
        tail = src.pick([[], [], ['x', 'y z']])
        cfg.args = ['p.b98'] + tail
        cfg.name = 'p.b98'
        wild = src.n(4) == 3
        limit = src.int(1, 60)
        mark = src.mark()
        for attempt in range(8):
            src.reset(mark)
            f, d = load_text(text, cfg.dims, cfg.cells, cfg.K)
            ask = Script(src, limit, wild)
            m = DebugModel(cfg, f, ask, bool(always), FINGERS)
            m.max_moves = 20000
            try:
                code = m.run(2500)
                break
            except (OutOfDomain, Budget):
                # end it before that
                wild = True
                limit = min(limit, len(ask.lines)) * 2 // 3
        else:
            raise Discard('no end')
        args = ['-fno-execute', '-fno-filesystem', '-std=' + {1: 'une98', 2: 'be98', 3: 'tre98'}[dims]] + (['-g'] if always else []) + (['-lDBUG'] if byarg else []) + (['-lMODE'] if moded else [])
        st = dict(m.stats)
        for l in ask.lines:
            w = l.split()
            if w:
                st['cmd ' + w[0]] = 1
        return {'files': {'p.b98': text}, 'args': args + ['p.b98'] + tail, 'stdin': ''.join(l + '\n' for l in ask.lines), 'env': {}, 'out': m.stdout(), 'code': code,
                '_stats': st, '_n': len(ask.lines)}

    def labels(self, case):
        return [k for k in case['_stats'] if k[:4] in ('cmd ', 'trap') or 'point' in k]

    def nontrivial(self, case):
        return case['_n'] >= 5


PROP = P()
