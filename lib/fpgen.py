"""Programs that use fingerprints: items that push arguments and give the letter, and a property made of them."""
from .gen98 import *
from . import items as I
from .fingers import FINGERS, fpid

EDGE = [0, 1, -1, 2, -2, 10, 63, 64, 127, 128, -128, 255, 256, (1 << 31) - 1, 1 << 31, -(1 << 31), 1 << 32, (1 << 32) + 5, (1 << 62), (1 << 63) - 1,
        -(1 << 63), -(1 << 63) + 1, 0x5555555555555555, 0x123456789abcdef]


def any_int(src):
    k = src.n(8)
    if k < 4:
        return src.int(0, 9)
    if k < 5:
        return src.int(-300, 300)
    if k < 7:
        return src.pick(EDGE)
    return src.int(-(1 << 40), 1 << 40)


def small_int(src):
    return src.int(-1, 12) if src.n(6) else src.int(-40, 40)


def text(src, chars='abcABC019 .-xyz', hi=6):
    return ''.join(src.pick(chars) for _ in range(src.n(hi + 1)))


def strcode(s):
    """Code that pushes a string, the first character on top. No quotes, controls or runs of spaces in s."""
    return '0"' + s[::-1] + '"' if s else '0'


def loadcode(name):
    return '"%s"%s(' % (name[::-1], num(len(name)))


def unloadcode(name):
    return '"%s"%s)' % (name[::-1], num(len(name)))


def P_(src, m):
    return vec([src.int(-3, 9) for _ in range(m.dims)])


KINDS = {
    'i': lambda lz, m: num(any_int(lz.src)),
    's': lambda lz, m: num(small_int(lz.src)),
    'u': lambda lz, m: num(lz.src.int(0, 9)),
    'b': lambda lz, m: num(lz.src.n(2)),
    'z': lambda lz, m: strcode(text(lz.src)),
    'v': lambda lz, m: vec(small_vec(lz, m)),
}


def small_vec(lz, m, lo=-2, hi=9):
    src = lz.src
    pool = lz.__dict__.setdefault('vpool', [])
    k = src.n(6)
    if pool and k < 3:
        return src.pick(pool)
    v = tuple(src.int(lo, hi) for _ in range(m.dims))
    if k == 5:
        v = tuple(src.pick([0, 1, -1, 30, -30, 255, 1000]) for _ in range(m.dims))
    pool.append(v)
    return v


def op(pattern, letter, kinds=KINDS, raw=6):
    """Push the arguments of the pattern and run the letter; one time in `raw` only the letter."""
    def f(lz, m, ip):
        if raw and lz.src.n(raw) == raw - 1:
            return letter
        return ''.join(kinds[c](lz, m) for c in pattern) + letter
    return f


def way_out(f):
    """What reflects leaves the row before it runs the items of before once more."""
    def g(lz, m, ip):
        k = lz.src.n(4)
        p = tuple(a + b for a, b in zip(ip.pos, ip.delta))
        if k and p not in lz.known and all(0 <= a < b for a, b in zip(p, lz.box)):
            lz.known.add(p)
            lz.init[p] = m.f.c[p] = 118 if k < 3 else 94
            return '#' + f(lz, m, ip)
        return f(lz, m, ip)
    return g


class FpProp(FungeProp):
    """Programs with fingerprints. names: weights and names; ops: name -> list of (weight, item)."""
    names = ()
    ops = {}
    base = [(3, I.show), (2, I.digit), (1, I.const), (1, I.shuffle), (1, I.direction3)]
    dims = ((6, 2), (1, 1), (2, 3))
    queries = ()
    box = {1: (260,), 2: (200, 3), 3: (150, 3, 2)}
    draws = (30, 80, 140)
    stdin = None
    args = ()
    fset = None
    K = None
    used = True

    def config(self, src, dims):
        return Config(dims=dims, K=self.K)

    def files(self, src):
        return {}

    def gen(self, src):
        dims = src.weighted(self.dims)
        cfg = self.config(src, dims)
        chosen = [src.weighted(self.names)]
        if src.n(6) == 5:
            chosen.append(src.weighted(self.names))
        byarg = src.n(3) == 0
        table = list(self.base)
        for n in chosen:
            table += self.ops[n]
        if len(chosen) > 1:
            table += [(3, lambda lz, m, ip: loadcode(src.pick(chosen))), (2, lambda lz, m, ip: unloadcode(src.pick(chosen)))]
        fin = FINGERS
        if byarg:
            cfg.fingerprints = [fpid(n) for n in chosen]

        def prog(lz, m):
            if not byarg:
                lz.pending[0] = list(''.join(loadcode(n) + self.keep(src) for n in chosen))
        files = self.files(src)
        stdin = self.stdin(src) if self.stdin else ''
        text, m, lz = build(src, cfg, self.box[dims], table, src.pick(self.draws), queries=self.queries, stdin=stdin, files=files, fingers=fin,
                            prog=prog, **dict(dict(space=1, escape=6, max_moves=8000), **self.build_args(src)))
        args = [a for a, on in (('-fno-execute', cfg.execute), ('-fno-filesystem', cfg.filesystem), ('-fno-concurrent', cfg.concurrent)) if not on]
        args += self.stdarg(dims)
        args += ['-l' + n for n in chosen] if byarg else []
        args += list(self.args)
        case = self.finish(cfg, args, text, stdin, files, fin)
        st = case['_stats']
        for n in chosen:
            st[n] = 1
        return case

    def stdarg(self, dims):
        return ['-std=' + {1: 'une98', 2: 'be98', 3: 'tre98'}[dims]]

    def keep(self, src):
        return '$$' if src.n(3) else ''

    def build_args(self, src):
        return {}

    def finish(self, cfg, args, text, stdin, files, fin):
        return make(cfg, True, args, text, stdin, files, fin, K=self.K)

    def nontrivial(self, case):
        m = case.get('_model')
        return m is None or m.stats.get('fp', 0) > 0

    def labels(self, case):
        return [k for k in case.get('_stats', ())]
