from lib.gen98 import *
from lib import items as I
from lib.ways import ways
from lib.big import also


def fin(lz, m, ip):
    """Some IPs end with q."""
    if ip.end is not None:
        return chr(ip.end & 255)
    st = m.top(ip)
    if lz.src.n(8) == 7:
        return 'q'
    if len(st.s) > 30:
        return 'n'
    if st.s:
        return '.'
    return '@'


def code(lz, m, ip):
    return num(lz.src.pick([0, 1, 3, 42, 255, 256, 257, -1, -2, 1000, 1 << 33])) + 'q'


class P(FungeProp):
    id = 'C10'
    rule = ('Programs of several IPs made by t (up to 60), which print, write cells that others read or execute, split again, enter string mode, '
            'stop with @ or end the program with q and any code; the interleaving shows in the output, which is compared with a model that '
            'runs the IPs in turn, one instruction each, a child right before its parent\'s next one. Non-trivial: at least two IPs ran.')
    quick = 16000
    thorough = 160000
    quick_time = 60
    stats_needed = ('thread',)

    def gen(self, src):
        if src.n(4) == 3:
            cfg = Config(dims=2)
            extra = ['%d1a4*p' % src.n(9), '1a4*g.', '52a4*1+p', '"o"3a4*p', '1a4*g1+1a4*p', '@', '1a4*g0`|']
            if src.n(3) == 2:
                extra += ['%dq' % src.n(9)]
            case = make(cfg, True, std_args(cfg, ['-std=be98']), ways(src, extra))
            case['_stats']['ways'] = 1
            return case
        dims = src.weighted([(7, 2), (2, 1), (2, 3), (1, 4)])
        cfg = Config(dims=dims)
        box = {1: (src.int(20, 80),), 2: (src.int(6, 30), src.int(3, 12)), 3: (12, 6, 2), 4: (12, 5, 2, 2)}[dims]
        t = [(6, I.digit), (6, I.show), (4, I.direction3), (3, I.thread), (3, I.fork), (2, I.decision), (2, '#'), (2, I.put), (2, I.get), (1, I.iterate), (1, I.over),
             (2, I.turn), (2, 'z'), (1, '@'), (1, I.string), (1, I.shuffle), (1, I.arith), (2, I.yquery(8)), (1, I.store), (1, I.fetch),
             (1, I.begin), (1, I.end), (1, I.charout)]
        if src.n(3) == 0:
            t += [(1, code)]
        text, m, lz = build(src, cfg, box, t, src.pick([30, 60, 120, 200]), space=2, finisher=fin, queries=[I.yquery(8)])
        case = make(cfg, dims < 4, std_args(cfg, stdopt(dims)), text)
        if case['code']:
            case['_stats']['exit code'] = 1
        return case


PROP = also(P())
