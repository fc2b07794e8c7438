from lib.gen98 import *
from lib import items as I
from lib.big import also


def number_out(lz, m, ip):
    return lz.src.pick(CONSTS98 if m.cfg.std >= 98 else CONSTS) + '.'


def chars(lz, m, ip):
    return num(lz.src.pick([0, 10, 13, 32, 65, 127, 128, 255, 256, 321, 1 << 33, -1, -200]), m.cfg.std >= 98) + ','


def tail(lz, m, ip):
    """Reads what is left."""
    if ip.end is not None:
        return chr(ip.end & 255)
    if lz.fdraws < 30 and m.inpos < len(m.stdin) and not m.top(ip).s:
        return '~,'
    return finish98(lz, m, ip)


PIECES = ['0', '7', '42', '007', '-5', '+9', '9223372036854775807', '123456789012345678', '1000000000000000000', '4294967296', '2147483648', ' ',
          '  ', '\n', '\n\n', '\r\n', '\r', '\t', 'a', 'xyz', '-', '.', '3.14', '1e5', '0x1f', '\x00', '\x80', '\xff', '\x7f', 'é', '~', '12 34', '5,6']


class P(FungeProp):
    id = 'C08'
    rule = ('Sequences of & ~ . , in any order, also under k, in conditionals and in several IPs, over generated input (numbers of up to 19 digits, signs, '
            'junk, CR, LF, CRLF, NUL, bytes from 128 on, no newline at the end, nothing at all), beyond its end too; everything read is printed, then the '
            'rest of the input, so a byte lost or read twice shows. Non-trivial: & or ~ was executed.')
    quick = 16000
    thorough = 160000
    quick_time = 60

    def gen(self, src):
        n98 = src.n(4) != 3
        dims = src.weighted([(5, 2), (2, 1), (1, 3)]) if n98 else src.pick([2, 1])
        topo = 'lahey' if n98 or src.n(2) else 'torus'
        cfg = Config(dims=dims, std=98 if n98 else 93, topo=topo, strings='sgml' if n98 else 'multispace', cells='int' if n98 else 'char')
        stdin = ''.join(src.pick(PIECES) for _ in range(src.weighted([(1, 0), (3, 2), (4, 6), (2, 20)])))
        box = {1: (400,), 2: (60, 8), 3: (40, 5, 2)}[dims]
        if topo == 'torus':
            box = (80, 25)[:dims]
        t = [(6, '&'), (6, '~'), (3, number_out), (3, chars), (3, '.'), (3, ','), (1, I.digit), (1, I.direction3), (1, I.decision), (1, '#')]
        if n98:
            t += [(1, I.iterate), (1, I.thread), (1, I.turn), (1, I.over)]
        text, m, lz = build(src, cfg, box, t, src.pick([20, 40, 80]), corners=topo == 'lahey', space=1, stdin=stdin, finisher=tail,
                            ktable=[(1, '~'), (1, '.'), (1, ','), (1, '&')])
        std = {1: 'un', 2: 'b', 3: 'tr'}[dims] + ('e98' if n98 else 'e93')
        extra = [] if n98 else ['-ftopo=' + topo]
        case = make(cfg, True, std_args(cfg, ['-std=' + std] + extra), text, stdin=stdin)
        case['_stats'][std] = 1
        return case

    def nontrivial(self, case):
        t = case['files']['p.b98']
        return '&' in t or '~' in t


PROP = also(P())
