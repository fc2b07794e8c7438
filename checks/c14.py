from lib.fpgen import *
from lib.model98 import Stack
from lib.big import also

NAMES = ['BOOL', 'BITW', 'ORTH', 'FRTH', 'TOYS', 'CPLI', 'FIXP', 'FING', 'NULL', 'STRN', 'SUBR', 'BASE', 'ROMA', 'MODU', 'FPDP', 'JSTR', 'REFC', 'NFUN', 'MODE']
SMALL = ['BOOL', 'BITW', 'ORTH', 'CPLI', 'FING', 'FRTH']
# letters that do something harmless or well defined on small operands, whatever the fingerprint
CALM = {
    'BOOL': 'AONX', 'BITW': 'AONXLR', 'ORTH': 'AOEGZS', 'FRTH': 'DOPR', 'TOYS': 'BDIHNT', 'CPLI': 'ASMOV', 'FIXP': 'AOXNVS', 'FING': 'XYZ',
    'NULL': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'STRN': 'ADFLMNRSV', 'SUBR': '', 'BASE': 'BHO', 'ROMA': 'IVXLCDM', 'MODU': 'R', 'FPDP': '', 'JSTR': '', 'REFC': '',
    'NFUN': '', 'MODE': '', 'PERL': 'S', 'FPSP': '', 'FPRT': '', 'IIPC': 'IA',
}


def name(lz):
    pool = lz.__dict__.setdefault('names', None)
    if pool is None:
        pool = lz.names = [lz.src.pick(SMALL if lz.src.n(2) else NAMES) for _ in range(lz.src.int(1, 4))]
    return lz.src.pick(pool)


def load(lz, m, ip):
    k = lz.src.n(12)
    if k == 11:
        n = lz.src.pick(['QQQQ', 'BOOLS', 'BOO', 'ABCD', 'boo', 'B'])
        return loadcode(n)
    if k == 10:
        return lz.src.pick(['0(', '01-(', '(', '3('])
    n = name(lz)
    if n in ('MODE',) and k < 8:
        n = 'BOOL'
    s = loadcode(n)
    j = lz.src.n(6)
    return s + ('.' if j == 0 else '$$' if j < 4 else '')


def unload(lz, m, ip):
    k = lz.src.n(12)
    if k == 11:
        return unloadcode(lz.src.pick(['QQQQ', 'ABCD', 'boo', 'HRT']))
    if k == 10:
        return lz.src.pick(['0)', '01-)', ')', '3)'])
    if ip.loaded and k < 6:
        n = ip.loaded[-1] if k < 4 else lz.src.pick(ip.loaded)
        return unloadcode(n.to_bytes(4, 'big').decode())
    if ip.loaded:
        return '1'
    return unloadcode(name(lz))


def letter(lz, m, ip):
    """A letter whose present meaning is one that can be told from others."""
    src = lz.src
    L = []
    for c, l in sorted(ip.sem.items()):
        if l and l[-1][1] is not None and chr(c) in CALM.get(l[-1][1].NAME, ''):
            L.append(chr(c))
        elif l and l[-1][1] is None:
            L.append(chr(c))
    k = src.n(6)
    if k == 0 or not L:
        free = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if not ip.sem.get(ord(c))]
        c = src.pick(free or ['1'])
    else:
        c = src.pick(L)
    if k == 5:
        return c
    pre = ''.join(num(src.int(0, 9)) for _ in range(src.int(2, 3)))
    if c == 'S' and ip.sem.get(83) and ip.sem[83][-1][1] is not None and ip.sem[83][-1][1].NAME in ('ORTH', 'STRN'):
        pre = strcode(text(src))
    return pre + c + src.pick(['', '.', '..'])


def fing(lz, m, ip):
    """Move meanings of letters about."""
    src = lz.src
    have = [c - 65 for c, l in sorted(ip.sem.items()) if l] or [0]
    has = ip.sem.get(88)
    if not (has and has[-1][1] is not None and has[-1][1].NAME == 'FING'):
        return loadcode('FING') + '$$'

    def which():
        n = src.pick(have) if src.n(4) else src.n(26)
        k = src.n(8)
        if k == 7:
            return num(src.pick([-1, 26, 64, 91, 97, 300]))
        return num(n + 65) if k > 3 else num(n)
    f = src.pick('XYZ')
    if f == 'Y':
        return which() + f
    return which() + which() + f


def whole(lz, m, ip):
    """How deep the stack is after loading tells how much was pushed."""
    return 'n' if lz.src.n(3) == 0 else '.'


def twice(lz, m, ip):
    """Load one more than once, unload it less often, and look at it from a child."""
    src = lz.src
    n = name(lz)
    if n == 'MODE' or len(m.runners) > 3:
        n = 'BOOL'
    k = src.int(2, 3)
    s = (loadcode(n) + src.pick(['$$', '$$', ''])) * k + unloadcode(n) * src.int(0, k - 1)
    c = src.pick(CALM.get(n) or 'A')
    c = c if n != 'STRN' else '1'
    args = ''.join(num(src.int(0, 9)) for _ in range(2))
    if len(m.runners) < 4 and src.n(3):
        # the child turns and meets the letter first
        return s + args + '2j.' + c + 't'
    return s + args + c + '.'


SHARED = [('BOOL', 'BITW', 'AONX'), ('BOOL', 'ORTH', 'AO'), ('BITW', 'ORTH', 'AO'), ('BOOL', 'CPLI', 'AO'), ('BITW', 'CPLI', 'AO'), ('ORTH', 'CPLI', 'AO'), ('FRTH', 'BOOL', 'O'), ('FIXP', 'BITW', 'ANOX')]


def between(lz, m, ip):
    """Two that share a letter, one of them loaded again and unloaded, and a child that meets the letter."""
    src = lz.src
    a, b, l = src.pick(SHARED)
    if src.n(2):
        a, b = b, a
    if len(m.runners) > 3:
        return '1'
    h = [a, b, a]
    s = ''.join(loadcode(x) + '$$' for x in h)
    for _ in range(src.int(1, 2)):
        s += unloadcode(h.pop())
    if src.n(3) == 2:
        h = [src.pick([a, b]) for _ in range(src.int(1, 2))]
        s += ''.join(loadcode(x) + '$$' for x in h)
    return s + num(src.int(1, 9)) + num(src.int(0, 9)) + '2j.' + src.pick(l) + 't'


def thread(lz, m, ip):
    return 't' if len(m.runners) < 4 and lz.src.n(2) else '1'


class Calm(FINGERS[fpid('STRN')]):
    pass


def nocompare(m, ip, inst):
    raise OutOfDomain('only the sign is defined')


Calm.CODE = dict(FINGERS[fpid('STRN')].CODE, C=nocompare)
FINGERS = dict(FINGERS)
FINGERS[fpid('STRN')] = Calm


class P(FpProp):
    id = 'C14'
    rule = ('Histories of loading and unloading of fingerprints with overlapping letters (known, unknown, of any length of name, by ( ) and by -l), of FING moving '
            'meanings about, and of children that inherit them; letters run in between must have the meaning on the top of their stack of meanings, or reflect without one. '
            'All output, the cells ( pushes and stacks compared with the model. Non-trivial: a letter with a meaning ran.')
    quick = 9000
    thorough = 120000

    def gen(self, src):
        dims = src.weighted([(6, 2), (1, 1), (1, 3)])
        cfg = Config(dims=dims)
        table = [(6, load), (5, unload), (10, letter), (3, whole), (2, thread), (1, twice), (1, between), (1, I.direction), (1, '$')]
        if src.n(2):
            table.append((4, fing))
        args = ['-fno-execute', '-fno-filesystem', '-std=' + {1: 'une98', 2: 'be98', 3: 'tre98'}[dims]]
        cfg.execute = cfg.filesystem = False
        by = [src.pick(SMALL if src.n(2) else ['BOOL', 'BITW', 'FRTH', 'FING', 'ROMA', 'CPLI']) for _ in range(src.weighted([(3, 0), (1, 1), (1, 2), (1, 3)]))]
        cfg.fingerprints = [fpid(n) for n in by]
        args += ['-l' + n for n in by]
        text, m, lz = build(src, cfg, {1: (600,), 2: (300, 4), 3: (200, 4, 2)}[dims], table, src.pick([60, 140, 300]), fingers=FINGERS, space=1)
        case = make(cfg, True, args, text, fingers=FINGERS)
        if by:
            case['_stats']['by argument'] = 1
        return case


PROP = also(P())
