from lib.gen98 import *
from lib import items as I


def anychar(lz, m, ip):
    """A character without a meaning here."""
    src = lz.src
    for _ in range(20):
        c = src.n(256)
        if c in (10, 11, 12, 13, 63, 32, 9) or c in m.base:
            continue
        return chr(c)
    return 'A'


def planted(lz, m, ip):
    """A cell along the way gets a value that is no character."""
    src = lz.src
    v = src.pick([0, 10, 13, 12, -1, 127, 128, 255, 256, 256 + 49, (1 << 32) + 49, 1 << 31, (1 << 63) - 1, -(1 << 63), -50, 1000, 33])
    if m.cfg.cells == 'char':
        v = src.pick([1, 65, 127, -1, -128, 33, 40])
    n = src.int(24, 40)
    p = [a + n * b for a, b in zip(ip.pos[:m.dims], ip.delta[:m.dims])]
    p = tuple(a - b for a, b in zip(p, ip.storage))
    return num(v, m.cfg.std >= 98) + vec(p, m.cfg.std >= 98) + 'p'


def fails(lz, m, ip):
    src = lz.src
    f = src.pick(['}', 'u', '(', ')', 'fp', 'nofile', '&', '~', 'deny'])
    if f == 'fp':
        n = src.pick(['QQQQ', 'AAAA', 'Z', 'NOSUCH', 'zzz9'])
        return '"%s"%s%s' % (n[::-1], num(len(n)), src.pick('()'))
    if f == 'nofile':
        return '0' * m.dims + '00"%s"i' % src.pick(['on', 'x'])
    if f == 'deny':
        return src.pick('t=o')
    if f in '()':
        return src.pick('0123') + f
    return f


class P(FungeProp):
    id = 'C13'
    rule = ('Programs with characters and planted cell values that are no instruction in their standard and number of dimensions, and with instructions that '
            'must fail there (nothing to close, end of input, unknown fingerprint, missing file, switched off), met in all directions and deltas, by several '
            'IPs, under string mode and skipping; each acts as r, and the diagnostics on stderr are exactly those of the unknown ones, with their value '
            'and place. Non-trivial: an IP was reflected so.')
    quick = 14000
    thorough = 140000
    quick_time = 60
    stats_needed = ('reflected',)

    def gen(self, src):
        n98 = src.n(4) != 3
        dims = src.weighted([(5, 2), (2, 1), (2, 3), (2, 4)]) if n98 else src.pick([2, 2, 1])
        topo = 'lahey' if n98 or src.n(2) else 'torus'
        cfg = Config(dims=dims, std=98 if n98 else 93, topo=topo, strings='sgml' if n98 else 'multispace', cells='int' if n98 else 'char',
                     execute=src.bool(), filesystem=src.bool(), concurrent=src.bool(3, 4))
        box = {1: (100,), 2: (60, 6), 3: (40, 5, 2), 4: (40, 4, 2, 2)}[dims]
        if topo == 'torus':
            box = (80, 25)[:dims]
        t = [(6, anychar), (2, planted), (3, I.show), (3, I.digit), (2, I.direction3), (1, '#'), (1, I.string), (1, I.decision)]
        if n98:
            t += [(5, fails), (1, I.thread), (1, I.turn), (1, I.fly), (1, I.over), (1, I.store)]
        else:
            t += [(2, lambda lz, m, ip: lz.src.pick('abcdefjkmnqrstuwxyz=()[]{};\'hlio&~'))]
        if dims == 1:
            t.append((2, lambda lz, m, ip: lz.src.pick('^v|[]whlm')))
        text, m, lz = build(src, cfg, box, t, src.pick([20, 40, 80]), corners=topo == 'lahey', space=1)
        args = [a for a, on in (('-fno-execute', cfg.execute), ('-fno-filesystem', cfg.filesystem), ('-fno-concurrent', cfg.concurrent)) if not on]
        case = make(cfg, dims < 4, args + stdopt(dims, n98) + ([] if n98 else ['-ftopo=' + topo]), text)
        case['unimp'] = '\n'.join(case['_model'].err)
        case['_stats']['%d dimensions' % dims] = 1
        return case

    def check(self, case, ex):
        unimp = case['unimp']
        c = {k: v for k, v in case.items() if k != 'unimp'}
        msg = judge(c, ex)
        if msg:
            return msg
        # the other diagnostics are lines of their own
        err = ex.err.split('\n')
        got, keep = [], False
        for l in err:
            if l.startswith('Unimplemented instruction '):
                got.append(l)
                keep = not re.search(r"'.' at \(", l, re.S) or not l.endswith('.')
            elif keep:
                got[-1] += '\n' + l
                keep = False
        got = '\n'.join(got)
        if got != unimp:
            return 'diagnostics: ' + diff(unimp, got)
        return None


import re
PROP = P()
