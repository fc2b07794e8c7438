from lib.gen98 import *
from lib import items as I
from lib.big import also


def where(lz, m, ip):
    """The storage offset, the number of stacks or the size of one of them, through y."""
    D = m.dims
    n = len(ip.ss)
    i = lz.src.pick([9 + 2 * D + 1 + k for k in range(D)] + [12 + 5 * D] + [13 + 5 * D + k for k in range(min(n, 4))])
    return num(i) + 'y.'


def pick(lz, m, ip):
    """A cell of the stack, through y."""
    D = m.dims
    st = m.top(ip).s
    k = lz.src.int(1, 12)
    size = len(M.sysinfo(m, ip))
    return num(size + k) + 'y.'


class P(FungeProp):
    id = 'C05'
    rule = ('Histories of { } u with positive, zero and negative counts up to far more than the stacks hold, over stacks of stacks of '
            'up to 12, with pushes, prints, writes and reads relative to the storage offset and the sizes, offset and picks that y gives; all '
            'stacks are closed and printed at the end. Non-trivial: { and one of } and u.')
    quick = 16000
    thorough = 160000
    quick_time = 60
    stats_needed = ('begin',)

    def gen(self, src):
        dims = src.weighted([(6, 2), (2, 1), (2, 3), (1, 4)])
        cfg = Config(dims=dims)
        box = {1: (700,), 2: (600, 2), 3: (600, 2, 2), 4: (600, 2, 2, 2)}[dims]
        t = [(8, I.hexdigit), (2, I.const), (4, I.begin), (4, I.end), (4, I.under), (3, I.show), (2, I.shuffle), (2, where), (2, I.arith), (1, 'n'),
             (1, I.get), (1, I.put), (1, pick), (1, 'z')]
        if dims > 1 and src.n(2):
            t += [(1, I.fly), (1, I.direction3)]
            box = (40, 12) + box[2:]
        text, m, lz = build(src, cfg, box, t, src.pick([30, 80, 160, 240]), space=1,
                            queries=[I.yquery(9 + 2 * dims + 1 + k) for k in range(dims)] + [I.yquery(12 + 5 * dims)])
        return make(cfg, dims < 4, std_args(cfg, stdopt(dims)), text)

    def nontrivial(self, case):
        st = case['_stats']
        return 'begin' in st and ('end' in st or 'under' in st)


PROP = also(P())
