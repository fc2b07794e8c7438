from lib.gen98 import *
from lib import items as I
from lib.big import also


class P(FungeProp):
    id = 'C02'
    rule = ('Histories of writes and reads (p g, \' s) at generated places: near, far, negative, at and beyond the bounds, on the '
            'program itself, erasing and overwriting, with any 64-bit value (8-bit in Befunge-93), with storage offsets from { }; '
            'every read, and the bounds that y reports, compared with a map. Non-trivial: at least one write and one read or bound.')
    quick = 16000
    thorough = 160000
    CONF = [(5, 'be98'), (2, 'une98'), (2, 'be93'), (1, 'une93'), (2, 'tre98'), (2, '4')]

    def gen(self, src):
        conf = src.weighted(self.CONF)
        n98 = not conf.endswith('93')
        dims = {'u': 1, 'b': 2, 't': 3, '4': 4}[conf[0]]
        topo = 'lahey' if n98 else 'torus'
        cells = 'int' if n98 else 'char'
        extra = []
        if src.n(6) == 5:
            cells = src.pick(['int', 'char'])
            extra.append('-fcells=' + cells)
        if not n98 and src.n(3) == 2:
            topo = 'lahey'
            extra.append('-ftopo=lahey')
        cfg = Config(dims=dims, std=98 if n98 else 93, topo=topo, cells=cells, strings='sgml' if n98 else 'multispace')
        torus = topo == 'torus'
        box = {1: (500,), 2: (400, 3), 3: (400, 3, 2), 4: (400, 2, 2, 2)}[dims]
        if torus:
            box = (80, 25)[:dims]
        t = [(3, I.get), (6, I.put), (2, I.const), (1, I.show), (1, I.shuffle)]
        if n98:
            t += [(1, I.store), (1, I.fetch), (2, I.bounds), (1, I.begin), (1, I.end)]
        if dims > 1 and torus:
            t += [(3, I.direction)]
        q = []
        if n98:
            q = [I.yquery(10 + 3 * dims + i) for i in range(2 * dims)]
        text, m, lz = build(src, cfg, box, t, 40 if torus else 240, corners=not torus, queries=q, space=0)
        case = make(cfg, dims < 4, std_args(cfg, stdopt(dims, n98) + extra), text, name='p.b98')
        return case

    def nontrivial(self, case):
        st = case['_stats']
        return 'put' in st and ('get' in st or 'sysinfo' in st)


PROP = also(P())
