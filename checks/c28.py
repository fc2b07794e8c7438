from lib.fpgen import *
from lib.ways import ways


def anid(lz, m):
    """Mostly the ID of an IP that runs."""
    src = lz.src
    k = src.n(9)
    if k < 6:
        return num(src.pick([r.id for r in m.runners]))
    if k == 6:
        return num(src.int(0, m.ids))
    if k == 7:
        return 'I'
    return num(src.pick([-1, 99, 1 << 32, (1 << 32) + 1, -(1 << 63)]))


def give(lz, m, ip):
    return num(any_int(lz.src)) + anid(lz, m) + 'P'


def take(lz, m, ip):
    return anid(lz, m) + 'G' + lz.src.pick(['.', '', ''])


def look(lz, m, ip):
    return anid(lz, m) + 'L' + lz.src.pick(['.', '', ''])


def back(lz, m, ip):
    """To the parent."""
    return num(lz.src.int(0, 99)) + 'AP' if lz.src.n(2) else 'A' + lz.src.pick('GL.')


def sleep(lz, m, ip):
    """Wait, if there is anyone else."""
    return 'D' if len(m.runners) > 1 else lz.src.pick('.1')


def thread(lz, m, ip):
    if len(m.runners) > 4:
        return '1'
    return I.fork(lz, m, ip) if lz.src.n(3) else 't'


def fin(lz, m, ip):
    """Wake the others that wait, then show what is left."""
    src = lz.src
    if ip.end is not None:
        return chr(ip.end & 255)
    asleep = [r for r in m.runners if r is not ip and getattr(r.avail.get(fpid('IIPC')), 'dormant', False)]
    if asleep and fpid('IIPC') in ip.loaded and not lz.asked.get((ip.id, asleep[0].id), 0) > 2:
        k = (ip.id, asleep[0].id)
        lz.asked[k] = lz.asked.get(k, 0) + 1
        return num(lz.src.int(1, 9)) + num(asleep[0].id) + 'P'
    return finish98(lz, m, ip)


class P(FpProp):
    id = 'C28'
    rule = ('Programs of up to five IPs that exchange cells with IIPC: they give cells to, take cells from and look at the stacks of others, of themselves, of their parents and of IDs that do not exist or have ended, '
            'wait until their stack is touched, and open, close and clear stacks; the interleaving and all stacks show in the output, which is compared with a model. Non-trivial: a cell went from one IP to another, or one waited.')
    quick = 15000
    thorough = 120000
    names = [(1, 'IIPC')]
    ops = {'IIPC': [(4, give), (4, take), (3, look), (2, back), (3, sleep), (4, thread), (1, 'I.'), (1, I.begin), (1, I.end), (1, I.under), (1, 'n'), (2, I.fork),
                    (1, I.iterate), (1, 'z'), (1, '@'), (1, I.decision), (1, '#')]}
    base = [(3, I.show), (3, I.digit), (2, I.direction3), (1, I.shuffle), (1, I.arith)]
    box = {1: (160,), 2: (60, 9), 3: (30, 6, 2)}
    draws = (30, 60, 120)
    stats_needed = ('given', 'taken', 'looked', 'asleep')

    def gen(self, src):
        if src.n(5) == 0:
            return FpProp.gen(self, src)
        cfg = Config(dims=2, fingerprints=[fpid('IIPC')])
        if src.n(3) == 2:
            return make(cfg, True, ['-fno-execute', '-fno-filesystem', '-std=be98', '-lIIPC'], self.sleepers(src), fingers=FINGERS, max_ticks=3000)
        hi = src.pick([2, 3, 5, 8])
        extra = ['#@%dG.', '#@%dG', '#@%dL.', '#@%dL', '#@8%dP', '#@7%dP', '#@9%dP', '#@%dP', '0G.', '0L.', '40P', '60P']
        extra = [e % src.n(hi) if '%' in e else e for e in extra for _ in range(2)] + ['#@AL.', '#@AG.', '#@5AP', 'I.', '#@A.', 'IL.', '3IP', 'IG', '#@01-G', '2{', '1}', '0}', '#@1u', 'n', '#@99P', 'zzzz', '3k.']
        if src.n(2):
            extra += ['D', 'D', '#D.', '#@4%dP#@3%dP#@2%dP' % (src.n(hi), src.n(hi), src.n(hi)), '#@1%dP#@1%dP' % (src.n(hi), src.n(hi))]
        return make(cfg, True, ['-fno-execute', '-fno-filesystem', '-std=be98', '-lIIPC'], ways(src, extra, quiet=src.n(3)), fingers=FINGERS, max_ticks=3000)

    def sleepers(self, src):
        """Children that wait, the others wake them."""
        cells = {}
        w = src.int(1, 4)

        def piece(i):
            return src.pick(['%d' % src.n(10), '.', '5', 'z', 'I.', 'A.', '7AP', 'AL.', 'AG', ':', '0{', '1{', '0}', '3%dP' % i, '%dL.' % i, '%dG.' % i, '2k.', '$', 'n', "'x,", '"ab"', '1u', '+'])
        x = 0
        for i in range(w):
            for ch in '#vt':
                cells[x, 0] = ch
                x += 1
            y = 1
            code = ''
            for _ in range(src.int(1, 2)):
                code += ''.join(piece(i + 1) for _ in range(src.n(5))) + 'D' + '.' * src.n(3)
            code += ''.join(piece(i + 1) for _ in range(src.n(4))) + '.@'
            for ch in code:
                cells[x - 2, y] = ch
                y += 1
            for ch in 'z' * src.n(4):
                cells[x, 0] = ch
                x += 1
        code = 'z' * src.n(12)
        for r in range(src.int(1, 4)):
            for i in src.perm(list(range(1, w + 1))):
                code += '#@' + src.pick(['%d%dP' % (src.n(10), i), '%d%dP' % (src.n(10), i), '%dG.' % i, '%dL.' % i, '8%dP8%dP' % (i, src.int(0, w)), '%dG%dP' % (i, src.int(1, w))]) + 'z' * src.n(9)
        for ch in code + '..@':
            cells[x, 0] = ch
            x += 1
        f = Field(2)
        f.c = {p: ord(c) for p, c in cells.items()}
        return f.text()

    def build_args(self, src):
        return {'finisher': fin, 'escape': 2, 'space': 1}

    def nontrivial(self, case):
        return any(s in case['_stats'] for s in self.stats_needed)


PROP = P()
