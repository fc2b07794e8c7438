from lib.gen98 import *
from lib import items as I
from lib.ways import ways
from lib import fishgen as G
from lib.fish import FishModel


def qcode(lz, m, ip):
    return num(lz.src.pick([0, 1, 3, 42, 255, 256, -1, 1000])) + 'q'


class P(FungeProp):
    id = 'C29'
    rule = ('Programs run with -fthreads=native. With one IP, of all the instructions of Funge-98 and Befunge-93 (also reading and writing cells, files, input, ends by q, an '
            'end in the middle, ><>): output, exit code and files as in the model. With up to 40 IPs that do not write cells: every IP prints its stacks and its ID, and the bytes printed '
            'in any order and the exit code are those of the model, whatever the schedule; the run must end. Each is run twice. Non-trivial: all.')
    quick = 5000
    thorough = 60000
    quick_time = 60
    thorough_time = 500
    wall = 20.0
    limit_as = 64 << 30

    def gen(self, src):
        k = src.n(300)
        if k >= 298:
            return self.ids(src)
        if k >= 270:
            return self.shared(src)
        return self.many(src) if k % 3 else self.single(src)

    def many(self, src):
        cfg = Config(dims=2)
        case = make(cfg, True, ['-fno-execute', '-fno-filesystem', '-std=be98', '-fthreads=native'], ways(src, ids=True))
        case['any'] = 'thread' in case['_stats']
        return case

    def board(self, cells, runs, **kw):
        f = Field(2)
        f.c = {p: ord(c) for p, c in cells.items()}
        case = make(Config(dims=2), True, ['-fno-execute', '-fno-filesystem', '-std=be98', '-fthreads=native'], f.text(), max_ticks=60000, max_moves=2000000)
        case['runs'] = runs
        case.update(kw)
        return case

    def ids(self, src):
        """IPs that split all at the same time."""
        w, n = src.int(2, 6), src.int(2, 14)
        cells = {}
        x = 0
        for i in range(w):
            for c in '#vt':
                cells[x, 0] = c
                x += 1
            for y, c in enumerate('4j@.y8t' * n + '8y.@'):
                cells[x - 2, y + 1] = c
        for c in '8y.@':
            cells[x, 0] = c
            x += 1
        return self.board(cells, 40, any=True, kind='ids')

    def shared(self, src):
        """IPs that write cells of their own at the same time; one waits for all, shows what is in the cells, and maybe ends the program with a code."""
        w = src.int(2, 9)
        cells = {}

        def row(text, x, y=0):
            for c in text:
                cells[x, y] = c
                x += 1
            return x
        x = 0
        out = []
        for i in range(w):
            row('#vt', x)
            code = ''
            for j in range(src.int(1, 40)):
                at = 'ff*5*%x+' % (i + 1) + num(src.int(1, 12) if src.n(3) else -src.int(1, 5))
                v = src.pick([num(src.int(-20, 2000)), num(src.int(0, 9)), '84*'])
                code += v + at + 'p'
                k = src.n(4)
                if k == 0:
                    code += at + 'g1+' + at + 'p'
                if k > 1:
                    out.append(at + 'g.')
            code += '1ff*5*%x+0p@' % (i + 1)
            for y, c in enumerate(code):
                cells[x + 1, y + 1] = c
            x += 3
        wait = []
        for i in range(w):
            a = x
            x = row('>ff*5*%x+0g1w' % (i + 1), x)
            cells[a, 1] = '^'
            cells[x - 1, 1] = '<'
        out = src.perm(out)[:40]
        row(''.join(out) + ''.join(I.yquery(i) for i in (16, 17, 18, 19)) + (num(src.pick([1, 3, 42, 255, 0])) + 'q' if src.n(2) else '@'), x)
        return self.board(cells, 6, kind='shared')

    def single(self, src):
        k = src.n(6)
        if k == 0:
            cfg = Config(dims=2, std=98, strings='multispace')
            cfg.model = FishModel
            t = [(4, G.number), (3, G.out), (2, G.op('+-*', 2)), (2, G.move), (1, G.put), (1, G.get), (1, G.string), (1, G.cond)]
            text, m, lz = build(src, cfg, (100, 4), t, src.pick([20, 50]), finisher=G.finish, space=1, escape=6, max_moves=8000, corner=114)
            case = make(cfg, True, ['-std=fish', '-fthreads=native'], text)
            case.pop('after', None)
            return case
        n98 = k < 5
        dims = src.weighted([(6, 2), (2, 1), (2, 3)]) if n98 else 2
        cfg = Config(dims=dims, std=98 if n98 else 93, strings='sgml' if n98 else 'multispace', cells='int' if n98 else 'char', topo='lahey', filesystem=src.bool(), execute=False, K=4)
        stdin = ''.join(src.pick(['12', ' ', 'x', '\n', '-7']) for _ in range(src.n(6)))
        t = [(5, I.digit), (4, I.show), (3, I.direction3), (2, I.put), (2, I.get), (2, I.arith), (1, I.shuffle), (1, I.string), (1, '#'), (1, I.decision), (1, '&'), (1, '~'), (1, I.charout), (1, qcode if n98 else '@')]
        if n98:
            t += [(1, I.begin), (1, I.end), (1, I.turn), (1, I.iterate), (1, I.store), (1, I.fly), (1, I.unknown), (1, I.yquery(1))]
        text, m, lz = build(src, cfg, {1: (200,), 2: (60, 5), 3: (40, 4, 2)}[dims], t, src.pick([4, 30, 60]), space=1, stdin=stdin)
        std = {1: 'un', 2: 'b', 3: 'tr'}[dims] + ('e98' if n98 else 'e93')
        return make(cfg, True, std_args(cfg, ['-std=' + std] + ([] if n98 else ['-ftopo=lahey']) + ['-fthreads=native']), text, stdin)

    def check(self, case, ex):
        for _ in range(case.get('runs', 2)):
            if not case.get('any'):
                msg = judge(case, ex)
                if msg:
                    return msg
                continue
            ex.clean()
            for n, d in case['files'].items():
                ex.put(n, d)
            r = ex.run(case['args'])
            if r.hung or r.sig or r.code != case['code']:
                return 'expected exit code %d, but the program %s; stderr %r' % (case['code'], r.end(), r.err[:300])
            if sorted(r.out) != sorted(case['out']):
                a, b = list(case['out']), []
                for c in r.out:
                    if c in a:
                        a.remove(c)
                    else:
                        b.append(c)
                return 'in some order %r was expected, got %r: %r is missing, %r too much' % (case['out'][:300], r.out[:300], ''.join(a)[:50], ''.join(b)[:50])
        return None

    def labels(self, case):
        return [case.get('kind') or ('many' if case.get('any') else 'one')] + [k for k in case['_stats'] if k in ('thread', 'exit', 'filein')]


PROP = P()
