"""Items for tables of lazily generated programs: what to put into the next cells, given the model's state."""
from .gen98 import CONSTS, CONSTS98, num, vec
from . import model98 as M


def const(lz, m, ip):
    return lz.src.pick(CONSTS98 if m.cfg.std >= 98 else CONSTS)


def digit(lz, m, ip):
    return lz.src.pick('0123456789')


def hexdigit(lz, m, ip):
    return lz.src.pick('0123456789abcdef')


def arith(lz, m, ip):
    return lz.src.pick('+-*/%`!')


def shuffle(lz, m, ip):
    return lz.src.pick(':\\$')


def direction(lz, m, ip):
    return lz.src.pick('><v^') if m.dims > 1 else lz.src.pick('><')


def direction3(lz, m, ip):
    return lz.src.pick('><v^hl' if m.dims > 2 else '><v^' if m.dims > 1 else '><')


def decision(lz, m, ip):
    s = '_' if m.dims == 1 else '_|'
    if m.dims > 2 and m.cfg.std >= 98:
        s += 'm'
    return lz.src.pick('01') + lz.src.pick(s) if lz.src.n(2) else lz.src.pick(s)


def turn(lz, m, ip):
    return lz.src.pick('r' if m.dims < 2 else '[]r')


def compare(lz, m, ip):
    if m.dims < 2:
        return 'r'
    if lz.src.n(2):
        return lz.src.pick('01239') + lz.src.pick('01239') + 'w'
    return 'w'


def n98(m):
    return m.cfg.std >= 98


def fly(lz, m, ip):
    """A new delta."""
    src = lz.src
    v = []
    for d in range(m.dims):
        v.append(src.weighted([(6, 0), (5, 1), (5, -1), (2, 2), (2, -2), (1, 3), (1, -3), (1, 7)]))
    if not any(v):
        v[src.n(m.dims)] = 1
    return vec(v) + 'x'


def flybig(lz, m, ip):
    src = lz.src
    v = [src.pick([0, 1, -1, 1000, -40, 1 << 33, -(1 << 33), 100]) for d in range(m.dims)]
    if not any(v):
        v[0] = 100
    return vec(v) + 'x'


def jump(lz, m, ip):
    src = lz.src
    j = src.weighted([(3, 1), (3, 2), (2, 0), (2, -1), (2, -2), (1, -5), (1, 7), (1, 20), (1, -30)])
    return num(j) + 'j'


KAFTER = '0123456789abcdef+-*/%!`:\\$n.,<>r#zxw[]^v_|\'s{}ug"'


def iterate(lz, m, ip):
    src = lz.src
    n = src.weighted([(2, 0), (3, 1), (3, 2), (3, 3), (2, 5), (1, 9), (1, 15), (1, 40)])
    gap = src.weighted([(6, ''), (2, ' '), (1, ';z@;'), (1, '  ;;'), (1, ';k; ')])
    if src.n(3) == 0:
        gap += src.pick(KAFTER)
    return num(n) + 'k' + gap


def over(lz, m, ip):
    return ';'


def string(lz, m, ip):
    return '"'


def fetch(lz, m, ip):
    return "'"


def store(lz, m, ip):
    return num(lz.src.pick([48, 57, 43, 46, 122, 32, 62, 1000, -5, 64, 113])) + 's'


COORD = [0, 1, 2, -1, -2, 5, 9, 20, -17, 100, -300, 1 << 20, -(1 << 31), 1 << 31, 1 << 33, -(1 << 40), 255, 256, 257, 79, 80, 24, 25]


def place(lz, m, ip, pool=None):
    """A place in fungespace: new, one from before, or around here."""
    src = lz.src
    pool = lz.__dict__.setdefault('pool', [])
    k = src.n(10)
    D = m.dims
    if k < 4 and pool:
        v = src.pick(pool)
    elif k < 6:
        v = tuple(src.pick(COORD) for _ in range(D))
    elif k < 8:
        v = tuple(src.int(-3, (lz.box[d] if d < len(lz.box) else 1) + 2) for d in range(D))
    elif k == 8:
        # somewhere along the way
        n = src.int(1, 40)
        v = tuple(a + n * b for a, b in zip(ip.pos[:D], ip.delta[:D]))
    else:
        # at the bounds
        v = tuple(src.pick([m.f.mins[d], m.f.maxs[d], 0]) + src.int(-1, 1) for d in range(D))
    v = tuple(v[:D])
    if any(abs(a) > (1 << 60) for a in v):
        v = tuple(0 for _ in v)
    pool.append(v)
    return v


VALUES = [32, 32, 32, 48, 53, 46, 122, 0, -1, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, (1 << 32) + 48, (1 << 63) - 1, -(1 << 63), 255, 128,
          256, 300, 43, 58, 60, 62, 64, 59, 10, 9]
VALUES93 = [32, 32, 48, 53, 46, 43, 58, 36, 127, 0, 65, 90, 126, -1, -128, 128, 255, 300]


def put(lz, m, ip):
    src = lz.src
    v = src.pick(VALUES if m.cfg.cells == 'int' else VALUES93)
    p = place(lz, m, ip)
    p = tuple(a - b for a, b in zip(p, ip.storage))
    return num(v, n98(m)) + vec(p, n98(m)) + 'p'


def get(lz, m, ip):
    p = place(lz, m, ip)
    p = tuple(a - b for a, b in zip(p, ip.storage))
    return vec(p, n98(m)) + 'g' + lz.src.pick(['.', '', '.'])


def show(lz, m, ip):
    return '.'


def bounds(lz, m, ip):
    """One of the bounds, through y."""
    D = m.dims
    i = 10 + 3 * D + lz.src.n(2 * D)
    return num(i) + 'y.'


def begin(lz, m, ip):
    src = lz.src
    if src.n(3) == 0:
        return '{'
    n = src.weighted([(3, 0), (3, 1), (3, 2), (2, 3), (2, 5), (2, -1), (2, -2), (1, -4), (1, 12), (1, 40)])
    return num(n) + '{'


def end(lz, m, ip):
    src = lz.src
    if src.n(4) == 0:
        return '}'
    n = src.weighted([(3, 0), (3, 1), (3, 2), (2, 3), (2, 5), (2, -1), (2, -2), (1, -4), (1, 12), (1, 40)])
    return num(n) + '}'


def under(lz, m, ip):
    src = lz.src
    n = src.weighted([(2, 0), (3, 1), (3, 2), (2, 3), (2, -1), (2, -2), (2, -3), (1, 9), (1, 40), (1, -30)])
    return num(n) + 'u'


def thread(lz, m, ip):
    return 't'


def charout(lz, m, ip):
    return num(lz.src.pick([65, 48, 10, 32, 126, 255, 321, -1, 128, 0])) + ','


def unknown(lz, m, ip):
    return lz.src.pick('ABCXYZ~&\x7f\x80\xff')


def yquery(i):
    return num(i) + 'y.'


def fork(lz, m, ip):
    """Split, with a way of its own for the child."""
    if m.dims < 2:
        return lz.src.pick(['#@t', 't'])
    return '#' + lz.src.pick('v^' if ip.delta[0] else '><') + 't'
