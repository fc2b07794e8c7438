from lib.gen98 import *
from lib import items as I
from lib.big import also

NAMES = ['a', 'b.txt', 'data', 'x-1', 'A b', 'none', '', '.', 'f\xe9']
TEXT = 'ab1 +>\t\n\n\r\f\v\x00\x80\xff @"'


def name(s):
    return '0"' + s[::-1] + '"'


def fin(lz, m, ip):
    v = tuple(a - b for a, b in zip(I.place(lz, m, ip), ip.storage))
    return vec(v) + lz.src.pick('01023') + name(lz.src.pick(NAMES)) + 'i' + '.' * lz.src.pick([0, 2 * m.dims])


def fout(lz, m, ip):
    src = lz.src
    if src.n(4):
        va = [src.int(-2, 8) for _ in range(m.dims)]
        if src.n(2):
            va = [src.pick([m.f.mins[d], m.f.maxs[d] - 3, 0]) for d in range(m.dims)]
    else:
        va = I.place(lz, m, ip)
    va = tuple(a - b for a, b in zip(va, ip.storage))
    vb = [src.pick([1, 2, 5, 30]), src.pick([1, 2, 3, 6])] + [src.pick([1, 0, 2]) for _ in range(m.dims - 2)]
    return vec(vb) + vec(va) + src.pick('01023') + name(src.pick(NAMES)) + 'o'


def bad(lz, m, ip):
    """Whatever is on the stack."""
    return lz.src.pick('io')


class P(FungeProp):
    id = 'C09'
    rule = ('Histories of i and o on files of generated contents (all line ends, form feeds, NUL, high bytes), at generated places and sizes, in text and '
            'binary mode, with missing files and names that cannot be opened, between reads and writes of cells; what i pushes, the cells, and every file '
            'afterwards are compared with a model of fungespace and a directory. Non-trivial: a file was read or written.')
    quick = 12000
    thorough = 120000
    quick_time = 60
    stats_needed = ('filein', 'fileout')

    def gen(self, src):
        dims = src.weighted([(6, 2), (2, 3), (1, 1), (1, 4)])
        cfg = Config(dims=dims, filesystem=True, execute=src.bool(), K=4)
        files = {}
        for n in NAMES[:5]:
            if src.n(3):
                files[n] = ''.join(src.pick(TEXT) for _ in range(src.int(0, 30)))
        box = {1: (900,), 2: (900, 3), 3: (900, 3, 2), 4: (900, 2, 2, 2)}[dims]
        t = [(5, fin), (3, I.get), (2, I.put), (1, I.show), (1, I.bounds), (1, I.begin), (1, I.end)]
        if dims > 1:
            t += [(5, fout), (1, bad)]
        text, m, lz = build(src, cfg, box, t, src.pick([60, 120, 260, 400]), space=0, files=files,
                            queries=[I.yquery(10 + 3 * dims + i) for i in range(2 * dims)])
        return make(cfg, dims < 4, std_args(cfg, stdopt(dims)), text, files=files, K=4)


PROP = also(P())
