from lib.gen98 import *
from lib import items as I
from lib.big import also

CHARS = '    abXY09+-<>@;k#\t\\\\ntv0e!~\x7f\xe9\xff'


class P(FungeProp):
    id = 'C06'
    rule = ('String mode with generated characters (runs of spaces, tabs, backslashes, bytes from 128 on, cells with values that are no '
            'characters), entered in all directions, with flying deltas and over the edges, in each of the modes multispace, SGML and C, by '
            '-fstrings or by the standard; squeezed spaces take no tick, which a second IP makes visible; also \' and s on the same cells. '
            'Every value pushed is printed. Non-trivial: a string with at least one space, escape or wrap.')
    quick = 16000
    thorough = 160000
    quick_time = 60

    def gen(self, src):
        if src.n(12) == 11:
            return self.odd(src)
        n98 = src.n(4) != 3
        dims = src.weighted([(5, 2), (2, 1), (2, 3), (1, 4)]) if n98 else src.pick([2, 2, 1])
        mode = src.pick(['multispace', 'sgml', 'c'])
        deft = 'sgml' if n98 else 'multispace'
        topo = 'lahey' if n98 or src.n(2) else 'torus'
        cfg = Config(dims=dims, std=98 if n98 else 93, topo=topo, strings=mode, cells='int' if n98 else 'char')
        extra = [] if mode == deft and src.n(2) else ['-fstrings=' + mode]
        if not n98:
            extra.append('-ftopo=' + topo)
        box = {1: (80,), 2: (src.int(6, 40), 8), 3: (20, 5, 2), 4: (20, 4, 2, 2)}[dims]
        if topo == 'torus':
            box = (80, 25)[:dims]
        t = [(9, I.string), (3, I.show), (2, I.direction3), (2, I.digit), (1, '#')]
        if n98:
            t += [(2, I.fly), (1, I.thread), (1, I.fetch), (1, I.store), (1, I.put), (1, I.iterate), (1, 'z'), (1, I.turn)]
        text, m, lz = build(src, cfg, box, t, src.pick([30, 60, 120]), corners=topo == 'lahey', space=1, strchars=CHARS, datachars=CHARS,
                            endstr=src.pick([4, 8, 12]))
        case = make(cfg, dims < 4, std_args(cfg, stdopt(dims, n98) + extra), text)
        case['_stats'][mode] = 1
        case['_stats']['%d dimensions' % dims] = 1
        return case

    def odd(self, src):
        """A string of any cells, written there before; some are spaces though not the usual one, some nearly are."""
        dims = src.weighted([(4, 2), (2, 1), (2, 3), (1, 4)])
        mode = src.pick(['multispace', 'sgml', 'sgml', 'c'])
        cfg = Config(dims=dims, strings=mode)
        n = src.int(1, 14)
        at = 60 + 12 * n
        s = ''
        body = [src.pick('ab  9\\t') for _ in range(n)]
        for i in range(n):
            if src.n(3):
                s += num(src.pick([9, 10, 11, 12, 13, 11, 12, 32, 32, 160, 133, 288, 32 - 256, 8, 14, 0, -1, 28, 31, 127, 92, 92, (1 << 32) + 32, -32, 97, 265, 92 + 256])) + vec([at + 1 + i] + [0] * (dims - 1)) + 'p'
        if len(s) > at - 1 or '"' in s:
            raise Discard('no room')
        text = s + 'z' * (at - len(s)) + '"' + ''.join(body) + '"' + '.' * (2 * n + 1) + '@'
        if dims == 4:
            text += '\v '
        text = text.replace("\n", " ")
        case = make(cfg, dims < 4, std_args(cfg, stdopt(dims) + ['-fstrings=' + mode]), text)
        st = case['_stats']
        st[mode] = st['odd cells'] = st['escape'] = 1
        return case

    def nontrivial(self, case):
        st = case['_stats']
        return 'string' in st and any(k in st for k in ('squeezed', 'escape', 'wrap')) or ('multispace' in st and 'string' in st)


PROP = also(P())
