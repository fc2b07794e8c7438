from lib.fpgen import *
from lib.engine import Discard
from lib.big import also

K18 = dict(KINDS)
K18['v'] = lambda lz, m: vec(spot(lz, m))
K18['d'] = lambda lz, m: vec([lz.src.weighted([(4, 1), (4, 2), (3, 3), (2, 0), (2, -1), (2, -2), (1, 5)]) for _ in range(m.dims)])
K18['n'] = lambda lz, m: num(lz.src.pick([0, 1, 2, 3, 5, -1, -2, -4, 9, 20]))
K18['h'] = lambda lz, m: num(lz.src.pick([0, 1, 2, 7, 31, 32, 63, -1, -2, -5, -31, -63]))
K18['t'] = lambda lz, m: num(lz.src.pick([0, 1, 2, 3, -1]))
K18['e'] = lambda lz, m: num(lz.src.pick([1, -1, 2, -2, 3]))


def spot(lz, m):
    """A place near the upper rows, or far from the program."""
    src = lz.src
    pool = lz.__dict__.setdefault('spots', [])
    k = src.n(6)
    if pool and k < 3:
        p = src.pick(pool)
        return tuple(a + src.int(-1, 1) for a in p)
    if k == 3:
        v = tuple(src.int(-3, lz.box[d] - 1 if d < len(lz.box) else 1) for d in range(m.dims))
    else:
        v = tuple([src.int(-4, 12)] + [src.pick([-5, -3, 4, 6, 9]) for _ in range(m.dims - 1)]) if m.dims > 1 else (src.pick([-9, -5, 300, 310]),)
    pool.append(v)
    return v


def o(*ps):
    return [(w, op(p[:-1], p[-1], K18)) for w, p in ps]


def fill(lz, m, ip):
    """Put a few different values somewhere, so that moves show."""
    src = lz.src
    v = spot(lz, m)
    n = src.int(1, 4)
    s = ''
    for i in range(n):
        w = list(v)
        w[src.n(m.dims)] += src.int(0, 2)
        s += num(src.pick([1, 2, 3, 7, 65, 66, 0, -1, 1 << 40, 127])) + vec([a - b for a, b in zip(w, ip.storage)]) + 'p'
    return s


def look(lz, m, ip):
    return vec([a - b for a, b in zip(spot(lz, m), ip.storage)]) + 'g.'


def areas(lz, m, ip):
    src = lz.src
    s = fill(lz, m, ip) if src.n(2) else ''
    return s + ''.join(K18[c](lz, m) for c in 'vdv') + src.pick('CKMV')


def overlap(lz, m, ip):
    """An area over itself, moved a little, in negative directions too."""
    src = lz.src
    v = spot(lz, m)
    size = [src.pick([-3, -2, -4, 2, 3, 4, -3]) if d == 0 else src.weighted([(4, 1), (1, 2), (2, -1), (2, -2)]) for d in range(m.dims)]
    s = ''
    for i in range(src.int(2, 4)):
        w = list(v)
        for d in range(m.dims):
            k = src.n(abs(size[d]))
            w[d] += k if size[d] > 0 else -k
        s += num(src.pick([1, 2, 3, 7, 65, 66, 0, -1])) + vec([a - b for a, b in zip(w, ip.storage)]) + 'p'
    to = [a + src.int(-2, 2) for a in v]
    order = [to, size, v]
    return s + ''.join(vec(a) for a in (v, size, to)) + src.pick('CKMV') + vec([a + src.int(-2, 2) - b for a, b in zip(to, ip.storage)]) + 'g.'


def get(lz, m, ip):
    return K18['d'](lz, m) + K18['v'](lz, m) + 'G'


def put(lz, m, ip):
    return ''.join(num(any_int(lz.src)) for _ in range(lz.src.n(5))) + K18['d'](lz, m) + K18['v'](lz, m) + 'F'


def setall(lz, m, ip):
    return num(lz.src.pick([32, 32, 65, 0, -1, 122, 1 << 33])) + K18['d'](lz, m) + K18['v'](lz, m) + 'S'


def turned(lz, m, ip):
    if m.dims < 2:
        return '1'
    if not lz.src.n(4):
        # Q behind an IP that flies, and the cells about
        pos, delta, f = list(ip.pos), list(ip.delta), ''
        if lz.src.n(3):
            fly = [lz.src.pick([0, 1, -1, 2, -2, 3]) for _ in range(m.dims)]
            if any(fly):
                f = vec(fly) + 'x'
                pos = [a + (len(f) - 1) * d + e for a, d, e in zip(pos, delta, fly)]
                delta = fly
        s = num(lz.src.pick([7, 66, 5])) + 'Q'
        at = [a + (len(s) - 2) * d for a, d in zip(pos, delta)]
        return f + s + ''.join(vec([a + b - c for a, b, c in zip(at, o, ip.storage)]) + 'g.' for o in ([0] * m.dims, [-d for d in delta[:m.dims]]))
    return (I.fly(lz, m, ip) if lz.src.n(4) == 3 else '') + lz.src.pick('LR') + '.'


def line(lz, m, ip):
    """Moves a line; the rest of the program is laid out before."""
    src = lz.src
    if m.dims < 2 or len(m.runners) > 1:
        return '1'
    c = src.pick('JO')
    s = num(src.pick([1, -1, 2, -2, 0, 30])) + c + src.pick(['', 'z', 'zz', '1', '123'])
    x, y = ip.pos[:2]
    for _ in range(src.n(6)):
        v = [x + src.int(-2, 30), src.int(-3, 6)] if src.n(2) else [x + len(s) - 1 + src.int(-2, 2), y + src.int(-4, 4)]
        s += vec([a - b for a, b in zip(v + [0] * (m.dims - 2), ip.storage)]) + 'g.'
    return s + '.' * src.n(4) + '@@@'


def finish(lz, m, ip):
    s = finish98(lz, m, ip)
    if ip.end is not None:
        return s
    if len(m.runners) > 1:
        # let go who waits
        for v, n in lz.__dict__.get('waits', ()):
            p = tuple(v) + (0,) * (m.K - m.dims)
            if m.f.c.get(p, 32) < n:
                return num(n) + vec([a - b for a, b in zip(v, ip.storage)]) + 'p'
    if s != '@':
        return s
    q = lz.__dict__.get('cells')
    if q is None:
        q = lz.cells = []
        for v in lz.__dict__.get('spots', [])[-4:]:
            for d in range(m.dims):
                for k in range(3):
                    w = list(v)
                    w[d] += k
                    w[(d + 1) % m.dims] += k // 2
                    q.append(w)
    if q:
        return vec([a - b for a, b in zip(q.pop(), ip.storage)]) + 'g.'
    return '@'


def wait(lz, m, ip):
    src = lz.src
    v = spot(lz, m)
    w = src.pick([1, 2, 3])
    s = num(w + src.n(3)) + vec([a - b for a, b in zip(v, ip.storage)]) + 'p' if src.n(3) else ''
    return s + num(src.pick([1, 2, 3])) + vec(v) + 'W'


def late(lz, m, ip):
    """One waits, the other puts."""
    src = lz.src
    waits = lz.__dict__.setdefault('waits', [])
    if len(m.runners) < 2:
        return 't'
    if waits and src.n(3):
        v, n = src.pick(waits)
        return num(n + src.pick([0, 0, 0, 1, -1])) + vec([a - b for a, b in zip(v, ip.storage)]) + 'p'
    v, n = spot(lz, m), src.pick([1, 2, 33])
    waits.append((v, n))
    return '0' + vec([a - b for a, b in zip(v, ip.storage)]) + 'p' + num(n) + vec(v) + 'W' + src.pick(['', '.'])


def steps(lz, m, ip):
    return lz.src.pick('XYZ' if m.dims > 1 else 'X')


FRTH = o((3, ''.join('D')), (5, 'iiinL'), (3, 'nL'), (3, 'iiO'), (4, 'iiinP'), (3, 'iiiR')) + [(2, op('', c, raw=0)) for c in 'DLOPR'] + [(2, I.begin), (2, I.end)]
TOYS = o((2, 'inA'), (2, 'iiB'), (1, 'iD'), (1, 'iI'), (1, 'iN'), (2, 'iiiE'), (2, 'uuuP'), (3, 'ihH'), (2, 'btT'), (1, 'iQ')) + [
    (7, areas), (3, overlap), (3, get), (3, put), (3, setall), (2, turned), (3, line), (2, wait), (5, late), (2, steps), (4, look), (4, fill), (1, 'E'), (1, 'P')]


class P(FpProp):
    id = 'C18'
    rule = ('Programs that load FRTH or TOYS: rolls, picks and depths with counts beyond the stack and negative, inside opened blocks; areas of any size and sign '
            'copied, moved, read, filled and set over each other and over the program, lines moved, butterflies, shifts, turns, waits with several IPs, in 1 to 3 '
            'dimensions; compared with models of the fingerprints. Non-trivial: an instruction of a fingerprint ran.')
    quick = 9000
    thorough = 120000
    names = [(2, 'FRTH'), (5, 'TOYS')]
    ops = {'FRTH': FRTH, 'TOYS': TOYS}
    base = [(3, I.show), (2, I.digit), (1, I.const), (1, I.shuffle), (1, I.direction3)]
    dims = ((6, 2), (1, 1), (2, 3))
    box = {1: (290,), 2: (200, 4), 3: (140, 4, 2)}

    def build_args(self, src):
        return {'finisher': finish}

    def gen(self, src):
        if src.n(20) == 19:
            return self.random_way(src)
        return FpProp.gen(self, src)

    def random_way(self, src):
        """U again and again, with code in every direction that shows the cell at its place."""
        dims = src.pick([1, 2, 3])
        c = {1: (90,), 2: (45, 45), 3: (45, 45, 45)}[dims]
        digits = src.perm('123456')[:2 * dims]
        n = src.int(30, 90)
        cells = {}
        zero = (0,) * dims

        def move(p, q):
            """Code that flies from where its x is, which depends on its length, to q."""
            s = ''
            for _ in range(9):
                t = ''.join(num(b - a) for a, b in zip(p(len(s)), q)) + 'x'
                if len(t) == len(s):
                    return t
                s = t
            raise Discard('no way')

        def write(at, s):
            for i, ch in enumerate(s):
                if ch != ' ':
                    cells[at(i)] = ch
        first = src.pick(['"SYOT"4(', '"SYOT"4($$', '"SYOT"4(n']) + num(n)
        ring = (len(first),) + zero[1:]
        row = first + '>:!k@1-'
        write(lambda i: (i,) + zero[1:], row + move(lambda k: (len(row) + k - 1,) + zero[1:], c))
        co = ''.join(num(x) for x in c)
        for k in range(2 * dims):
            def at(i, k=k):
                return tuple(x + ((-1 - i if k & 1 else 1 + i) if j == k >> 1 else 0) for j, x in enumerate(c))
            s = digits[k] + '.' + co + "g,'U" + co + 'p'
            write(at, s + move(lambda l: at(len(s) + l - 1), ring))
        cells[c] = 'U'
        K = max(2, dims)
        f = Field(K)
        f.c = {p + (0,) * (K - len(p)): ord(ch) for p, ch in cells.items()}
        return {'kind': 'U', 'dims': dims, 'digits': digits, 'n': n, 'files': {'p.b98': f.text()}, 'stdin': '', 'out': '', 'code': 0,
                'args': ['-fno-execute', '-fno-filesystem', '-std=' + {1: 'une98', 2: 'be98', 3: 'tre98'}[dims], 'p.b98'], '_stats': {'U%d' % dims: 1}}

    def check(self, case, ex):
        if case.get('kind') != 'U':
            return FpProp.check(self, case, ex)
        ex.clean()
        for n, d in case['files'].items():
            ex.put(n, d)
        r = ex.run(case['args'])
        if r.hung or r.sig or r.code:
            return 'U: the program %s' % r.end()
        ways = ['%s %s' % (d, ch) for d, ch in zip(case['digits'], '><v^hl')]
        got = [r.out[i:i + 3] for i in range(0, len(r.out), 3)]
        if len(got) != case['n'] or any(w not in ways for w in got):
            return 'U: output %r is not made of %d of %r' % (r.out, case['n'], ways)
        # an even choice stays below this once in 10^12 cases or less
        k = case['dims'] * 2
        if len(got) >= 80 and k < 6 and len(set(got)) < 2:
            return 'U: always goes the same way: %r' % r.out
        case['_note'] = [case['dims'], [got.count(w) for w in ways]]
        return None

    def aggregate(self, notes):
        for dims in (1, 2, 3):
            a = [sum(w) for w in zip(*[w for d, w in notes if d == dims])]
            if sum(a) >= 1000 and min(a) == 0:
                return 'U never goes %s in %d dimensions, of %d times' % (', '.join('><v^hl'[w] for w in range(2 * dims) if not a[w]), dims, sum(a))
        return None

    def nontrivial(self, case):
        return case.get('kind') == 'U' or FpProp.nontrivial(self, case)

P.base = P.base + [(1, late)]
PROP = also(P())
