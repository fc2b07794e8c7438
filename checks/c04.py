from lib.gen98 import *
from lib import items as I
from lib.model98 import Model
from lib.big import also


class Forced(Model):
    """`?` goes where it is told."""

    def __init__(self, *a, choices=(), **kw):
        self.choices = list(choices)
        super().__init__(*a, **kw)
        self.base = dict(self.base)
        self.base[63] = away


def away(m, ip):
    if not m.choices:
        raise Budget('choices')
    c = m.choices.pop(0)
    v = [0] * m.K
    v[c >> 1] = -1 if c & 1 else 1
    m.setdelta(ip, tuple(v))


def forced(case, choices):
    cfg = Config(**case['cfg'])
    cfg.args = ['p.b98']
    f, dims = load_text(case['files']['p.b98'], cfg.dims, cfg.cells, cfg.K)
    m = Forced(cfg, f, choices=choices)
    m.max_moves = 2000000
    try:
        code = m.run(40000)
    except (OutOfDomain, Budget):
        return None
    return m.stdout(), code


ARM = '0123456789.:+-*!\\$'


class P(FungeProp):
    id = 'C04'
    rule = ('Programs of # _ | m w [ ] r x j k ; and direction changes in 1 to 3 dimensions, made cell by cell so that each is executed, '
            'with edge operands, whose path shows in what they print, compared with a model; and programs in which `?` stands between arms '
            'with different code, whose outcome has to be that of exactly one unit direction, all of which come up. Non-trivial: at '
            'least three kinds of control flow instructions were executed, or a `?`.')
    quick = 16000
    thorough = 200000
    quick_time = 60

    def gen(self, src):
        kind = src.n(40)
        if kind == 39:
            return self.walker(src)
        if kind >= 34:
            return self.star(src)
        dims = src.weighted([(6, 2), (2, 1), (3, 3), (1, 4)])
        n98 = src.n(6) != 5
        if not n98:
            dims = min(dims, 2)
        topo = 'lahey' if n98 or src.n(2) else 'torus'
        cfg = Config(dims=dims, std=98 if n98 else 93, topo=topo, strings='sgml' if n98 else 'multispace',
                     cells='int' if n98 else 'char')
        box = {1: (60,), 2: (16, 9), 3: (10, 6, 3), 4: (10, 5, 2, 2)}[dims]
        if topo == 'torus':
            box = (80, 25)[:dims]
        t = [(6, I.digit), (5, I.show), (3, I.direction3), (4, I.decision), (4, '#'), (2, I.shuffle), (2, I.arith), (1, I.string)]
        if n98:
            t += [(4, I.turn), (4, I.compare), (4, I.jump), (7, I.iterate), (3, I.over), (2, I.fly), (1, I.const), (1, 'z'), (1, I.begin),
                  (1, I.end), (1, I.fetch), (1, I.store), (1, 'n')]
        text, m, lz = build(src, cfg, box, t, src.pick([12, 30, 60, 120]), corners=topo == 'lahey', space=2)
        case = make(cfg, dims < 4, std_args(cfg, stdopt(dims, n98) + (['-ftopo=' + topo] if not n98 else [])), text)
        n = sum(1 for c in '#_|mw[]rxjk;' if c in text)
        case['_stats']['%d dimensions' % dims] = 1
        case['_kinds'] = n
        return case

    def cfg(self, src, kinds=(1, 2, 3), n98=None):
        dims = src.pick(kinds)
        if n98 is None:
            n98 = dims > 2 or src.n(3) != 2
        cfg = dict(dims=dims, std=98 if n98 else 93, topo='lahey', strings='sgml' if n98 else 'multispace', cells='int' if n98 else 'char')
        return cfg, ['-fno-execute', '-fno-filesystem'] + stdopt(dims, n98) + ([] if n98 else ['-ftopo=lahey']), dims

    def star(self, src):
        cfg, args, dims = self.cfg(src, (1, 2, 3, 4))
        L = src.int(1, 4)
        cells = {}
        end = '@q' if cfg['std'] == 98 else '@'
        mid = 0
        c = [L + 3, L + 3, L + 1, L + 1][:dims]
        if dims == 4:
            pre = ''.join(src.pick(ARM) for _ in range(src.int(0, 3)))
            s = pre
            for _ in range(9):
                s = pre + vec([c[0] - len(s)] + c[1:])
            for x, ch in enumerate(s + 'x'):
                cells[x, 0, 0, 0] = ch
        elif dims == 1:
            c = [L + 2]
            cells[(0,)] = '#'
        else:
            # along the first line, down through the arm
            pre = [src.pick(ARM) for _ in range(c[0])]
            for x, ch in enumerate(pre):
                cells[(x, 0) + (0,) * (dims - 2)] = ch
            if dims == 2:
                cells[(c[0], 0)] = 'v'
            else:
                cells[(c[0], 0, 0)] = 'h'
                cells[(c[0], 0, c[2])] = 'v'
            cells[(c[0], 1) + tuple(c[2:])] = '#'
        for d in range(dims):
            for s in (1, -1):
                for k in range(1, L + 2):
                    p = list(c)
                    p[d] += s * k
                    cells[tuple(p)] = src.pick(ARM) if k <= L else src.pick(end)
                    if k == L:
                        cells[tuple(p)] = '.'
                    if k == 1:
                        cells[tuple(p)] = str(2 * d + (s < 0) + 1)
        cells[tuple(c)] = '?'
        K = max(2, dims)
        f = Field(K)
        f.c = {p + (0,) * (K - len(p)): ord(ch) for p, ch in cells.items()}
        case = {'kind': 'star', 'cfg': cfg, 'files': {'p.b98': f.text()}, 'args': args + ['p.b98'], 'out': '', 'code': 0}
        case['expect'] = [forced(case, [i]) for i in range(2 * dims)]
        if any(e is None for e in case['expect']):
            raise Discard('no end')
        case['_stats'] = {'?': 1}
        case['_kinds'] = 9
        return case

    def walker(self, src):
        dims = src.pick([1, 2, 3, 4])
        cfg = dict(dims=dims)
        digits = src.perm('123456789')[:2 * dims]
        cells = {}

        def arm(c, d, s, dig):
            back = {(0, 1): '<', (0, -1): '>', (1, 1): '^', (1, -1): 'v', (2, 1): 'l', (2, -1): 'h'}[d, s] if dims < 4 else 'r'
            for k, ch in enumerate((dig, '.', back)):
                p = list(c)
                p[d] += s * (k + 1)
                cells[tuple(p)] = ch
        n = 250 * dims * 7
        if dims == 1:
            c = (6,)
            cells[(0,)] = 'f'
            cells[(1,)] = 'j'
            cells[(17,)] = 't'
            at = 18
        elif dims == 4:
            c = (20, 3, 3, 3)
            s = vec([15, 3, 3, 3]) + '#xt'
            for x, ch in enumerate(s):
                cells[x, 0, 0, 0] = ch
            at = 7
        else:
            c = (4, 6) if dims == 2 else (4, 6, 3)
            z = (0,) * (dims - 2)
            cells[(3, 0) + z] = '#'
            cells[(5, 0) + z] = 't'
            if dims == 2:
                cells[(4, 0)] = 'v'
            else:
                cells[(4, 0, 0)] = 'h'
                cells[(4, 0, 3)] = 'v'
            at = 6
        for d in range(dims):
            arm(c, d, 1, digits[2 * d])
            arm(c, d, -1, digits[2 * d + 1])
        cells[c] = '?'
        K = max(2, dims)
        f = Field(K)
        f.c = {p + (0,) * (K - len(p)): ord(ch) for p, ch in cells.items()}
        for x in range(n):
            f.c[(at + x,) + (0,) * (K - 1)] = 122
        f.c[(at + n,) + (0,) * (K - 1)] = ord('q')
        case = {'kind': 'walker', 'cfg': cfg, 'dims': dims, 'digits': ''.join(digits), 'files': {'p.b98': f.text()}, 'n': n,
                'args': ['-fno-execute', '-fno-filesystem'] + stdopt(dims) + ['p.b98'], 'out': '', 'code': 0}
        case['_stats'] = {'? walk': 1}
        case['_kinds'] = 9
        return case

    def check(self, case, ex):
        if 'kind' not in case:
            return judge(case, ex)
        ex.clean()
        for n, d in case['files'].items():
            ex.put(n, d)
        r = ex.run(case['args'])
        if r.hung or r.sig:
            return 'the program %s' % r.end()
        if case['kind'] == 'star':
            if [r.out, r.code] in [list(e) for e in case['expect']]:
                return None
            return 'output %r and %s are not those of any direction: %r' % (r.out, r.end(), case['expect'])
        t = r.out.split(' ')
        # one arm on the way in, then out and back on each arm
        ds = t[0:-1:2] if case['dims'] == 4 else t[1:-1:2] if t[0] == '0' else None
        if ds is None or any(x not in case['digits'] for x in ds):
            return 'the walk goes wrong: %r' % r.out[:200]
        choices = [case['digits'].index(x) for x in ds]
        want = None
        for last in range(2 * case['dims']):
            w = forced(case, choices + [last] * 3)
            if w and w == (r.out, r.code):
                want = w
                break
        if want is None:
            return 'the walk %r of %d steps is not one of unit steps: %r' % (choices[:40], len(choices), r.out[:200])
        for c in range(2 * case['dims']):
            if choices.count(c) < len(choices) / (2.0 * case['dims']) * 0.25:
                return 'of %d random directions, %d were %s' % (len(choices), choices.count(c), 'axis %d %s' % (c >> 1, '-+'[not c & 1]))
        return None

    def nontrivial(self, case):
        return case['_kinds'] >= 3

    def sample(self, case):
        return {k: case[k] for k in ('args', 'files', 'out', 'code')}


PROP = also(P())
