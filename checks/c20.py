from lib.fpgen import *
from lib.big import also


def toggle(lz, m, ip):
    return lz.src.pick('HIQS')


def pushes(lz, m, ip):
    return ''.join(num(lz.src.int(0, 9)) for _ in range(lz.src.int(2, 5)))


def turn(lz, m, ip):
    return lz.src.pick('[]r' if m.dims > 1 else 'r')


def brackets(lz, m, ip):
    """Under switch mode these change the cell they are in, so a second pass shows."""
    src = lz.src
    k = src.n(6)
    if k < 2:
        return num(src.int(-1, 3)) + src.pick('{}')
    if k == 2:
        return turn(lz, m, ip)
    if k == 3:
        return loadcode(src.pick(['BOOL', 'MODE', 'QQQQ'])) + src.pick(['', '$$'])
    if k == 4:
        return unloadcode(src.pick(['BOOL', 'QQQQ']))
    return I.end(lz, m, ip)


def look(lz, m, ip):
    """The brackets that were passed."""
    src = lz.src
    D = m.dims
    at = [p for p, c in sorted(m.f.c.items()) if c in (40, 41, 91, 93, 123, 125)]
    if not at:
        return '1'
    p = src.pick(at)
    return vec([a - b for a, b in zip(p[:D], ip.storage)]) + 'g.'


def hover(lz, m, ip):
    return lz.src.pick('><^v^v><hl' if m.dims > 2 else '><^v' if m.dims > 1 else '><')


def decide(lz, m, ip):
    s = '_|m' if m.dims > 2 else '_|' if m.dims > 1 else '_'
    return lz.src.pick('01') + lz.src.pick(s)


def stop(lz, m, ip):
    """Keep the IP from standing still for good."""
    if not any(ip.delta):
        return '>'
    return 'z'


def put(lz, m, ip):
    v = vec([a - b for a, b in zip(small_vec(lz, m), ip.storage)])
    return num(lz.src.pick([1, 65, 1 << 33, 32])) + v + 'p'


def both(lz, m, ip):
    return loadcode(lz.src.pick(['MODE', 'FRTH'])) + '$$' + lz.src.pick(['', 'Q', 'I', 'H'])


def dive(lz, m, ip):
    """Under water and up again: the other modes stay."""
    if m.mode & 0x20000:
        return lz.src.pick('OOO><HQ1')
    return lz.src.pick(['UO', 'U', 'UO', '$$UO'])


def withmode(lz, m, ip):
    """The modes on top of U and O."""
    return loadcode('MODE') + '$$' + lz.src.pick(['S', 'Q', 'I', 'H', 'SU', 'QUO', 'IUO'])


def finish20(lz, m, ip):
    if m.mode & 0x20000 and ip.end is None:
        return 'O'
    return finish98(lz, m, ip)


class P(FpProp):
    id = 'C20'
    rule = ('Programs that switch the modes of MODE on and off in any combination (hover, invert, queue, switch) between moves, decisions, turns, stack instructions, '
            'transfers between stacks, blocks, fingerprint loads and brackets, also by children; stacks, positions and the cells that switch mode changes compared '
            'with a model. Non-trivial: an instruction of the fingerprint ran.')
    quick = 9000
    thorough = 120000
    names = [(8, 'MODE'), (2, 'FRTH'), (1, 'FISH')]
    ops = {'MODE': [(14, toggle), (5, pushes), (3, turn), (6, brackets), (3, look), (3, hover), (2, decide), (2, I.under), (2, I.arith), (3, I.shuffle), (1, 'n'),
                    (1, I.begin), (1, lambda lz, m, ip: 't' if len(m.runners) < 4 else '1'), (1, put), (1, I.iterate), (1, I.string), (1, I.fetch), (1, I.jump), (1, I.compare), (1, I.fly)],
           'FRTH': [(3, lambda lz, m, ip: num(lz.src.pick([0, 1, 2, 3, 5, -1])) + 'P' + lz.src.pick(['.', '', '.'])), (1, 'D'), (2, both)],
           'FISH': [(4, dive), (2, withmode), (4, toggle), (3, pushes), (2, brackets), (1, look), (1, hover), (1, I.begin)]}
    base = [(4, I.show), (2, I.digit)]
    dims = ((6, 2), (1, 1), (2, 3))
    box = {1: (160,), 2: (100, 6), 3: (60, 5, 2)}

    def build_args(self, src):
        return {'escape': 1 if src.n(2) else 4, 'finisher': finish20}


PROP = also(P())
