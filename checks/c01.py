from lib.gen98 import *
from lib.big import also

BIN = '+-*/%`'


def table(n98, strings=True):
    consts = CONSTS98 if n98 else CONSTS

    def const(lz, m, ip):
        return lz.src.pick(consts)

    def op(lz, m, ip):
        return lz.src.pick(BIN + '/%' + '!:\\$')
    t = [(3, lambda lz, m, ip: lz.src.pick('0123456789' + ('abcdef' if n98 else ''))), (3, const), (9, op), (1, '.'), (1, ':')]
    if n98:
        t += [(1, lambda lz, m, ip: 'n' if lz.src.n(4) == 3 else 'z')]
    return t


CONF = [(3, 'be98'), (1, 'une98'), (2, 'be93'), (1, 'une93'), (1, 'tre98'), (1, '.bf'), (1, '.b98')]


class P(FungeProp):
    id = 'C01'
    rule = ('Programs made instruction by instruction from digits, recipes for edge values (up to 2^63), + - * / % ! ` : \\ $ n, '
            'in Befunge-93, Unefunge, Befunge-98 and Trefunge; the whole stack is printed at the end and compared with a model in '
            'exact arithmetic cut to 64 bits. Non-trivial: at least one two-operand instruction, distinct program.')
    quick = 30000
    thorough = 250000

    def gen(self, src):
        conf = src.weighted(CONF)
        n98 = '93' not in conf and conf != '.bf'
        cfg = Config(dims={'u': 1, 'b': 2, 't': 3, '.': 2}[conf[0]], std=98 if n98 else 93,
                     topo='torus' if conf.endswith('93') else 'lahey', strings='sgml' if conf[0] == '.' or n98 else 'multispace',
                     cells='char' if conf.endswith('93') else 'int')
        torus = conf.endswith('93')
        box = (80, 25) if torus else (300, 2)
        if cfg.dims == 1:
            box = (80,) if torus else (300,)
        if cfg.dims == 3:
            box = (300, 2, 2)
        text, m, lz = build(src, cfg, box, table(n98), 34 if torus else 80, corners=not torus, space=1)
        name = 'p' + (conf if conf[0] == '.' else '.b98' if n98 else '.bf')
        args = std_args(cfg, [] if conf[0] == '.' else ['-std=' + conf])
        case = make(cfg, conf[0] != '.', args, text, name=name)
        case['_stats'] = {conf: 1, **{k: 1 for k in case['_stats']}}
        case['_ops'] = sum(text.count(c) for c in BIN)
        return case

    def nontrivial(self, case):
        return case['_ops'] > 0


PROP = also(P())
