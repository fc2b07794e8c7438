import re
from lib.fpgen import *
from lib.big import also

SIGN = ':0`\\0\\`-'
CH = 'abcABC019 .-xyz~\xe9\xff!'


def tx(src):
    k = src.n(4)
    if k == 0:
        return src.pick(['', 'a', 'ab', 'b', 'abc', 'cab', 'aab', 'ba', '\xff', '\xe9a', 'ABC', '-12', '42', '0', '99', ' 7', '12ab', '9' * 18])
    t = text(src, CH, 7)
    return re.sub('  +', ' ', t)


K17 = dict(KINDS)
K17['z'] = lambda lz, m: strcode(tx(lz.src))
K17['n'] = lambda lz, m: num(lz.src.pick([0, 1, 2, 3, 5, 8, 20, -1]))
K17['w'] = lambda lz, m: num(lz.src.pick([2, 3, 8, 10, 16, 31, 32, 33, 36, 37, 57, 58, 59, 64, 65, 84, 85, 86, 100, 256, 1000, 1, 0, -1, lz.src.int(2, 90)]))
K17['v'] = lambda lz, m: vec(small_vec(lz, m, -2, 30))
K17['d'] = lambda lz, m: vec([lz.src.weighted([(3, 1), (3, 0), (2, -1), (1, 2), (1, 40)]) for _ in range(m.dims)])
K17['l'] = lambda lz, m: strcode(str(lz.src.pick([0, 7, -12, 123456789012, lz.src.int(-999, 999)])) + lz.src.pick(['', '', 'x', ' 1']))
K17['i'] = lambda lz, m: num(any_int(lz.src))


def o(*ps):
    return [(w, op(p[:-1], p[-1], K17)) for w, p in ps]


def compare(lz, m, ip):
    src = lz.src
    a = tx(src)
    k = src.n(3)
    b = a if k == 0 else tx(src) if k == 1 else a[:-1] + src.pick(CH)
    if '  ' in b:
        b = 'q'
    return strcode(a) + strcode(b) + 'C' + SIGN


def find(lz, m, ip):
    src = lz.src
    a = tx(src)
    i, j = src.n(len(a) + 1), src.n(len(a) + 1)
    b = a[min(i, j):max(i, j)]
    if src.n(4) == 0:
        b = tx(src)
    return strcode(b) + strcode(a) + 'F'


def numstr(lz, m, ip):
    return strcode(str(any_int(lz.src)) + lz.src.pick(['', '', 'x'])) + 'V'


def store(lz, m, ip):
    v = vec(small_vec(lz, m, -2, 30))
    s = strcode(tx(lz.src)) + v + 'P'
    return s + (v + 'G' if lz.src.n(2) else '')


def jcopy(lz, m, ip):
    """P of some cells, and G of them, perhaps the other way."""
    src = lz.src
    n = src.int(0, 6)
    d = [src.weighted([(3, 1), (3, 0), (2, -1), (1, 3)]) for _ in range(m.dims)]
    v = small_vec(lz, m, -2, 30)
    s = ''.join(num(any_int(src)) for _ in range(n)) + vec(d) + vec(v) + num(n) + 'P'
    k = src.n(3)
    if k == 0:
        s += vec(d) + vec(v) + num(n + src.n(2)) + 'G'
    elif k == 1:
        s += vec([-a for a in d]) + vec([a + (n - 1) * b for a, b in zip(v, d)]) + num(n) + 'G'
    return s


def ref(lz, m, ip):
    src = lz.src
    v = vec(small_vec(lz, m))
    return v + 'R' + src.pick(['', 'D', ':D', ':.D', '0{' if False else '', ':1\\$D'])


def stash(lz, m, ip):
    """Keep a reference in a cell and take it out again."""
    return vec(small_vec(lz, m)) + 'R' + num(3) + num(0) * (m.dims - 1) + 'p' + num(3) + num(0) * (m.dims - 1) + 'gD'


OPS = {
    'STRN': o((3, 'zzA'), (3, 'zD'), (3, 'znL'), (4, 'znnM'), (2, 'zN'), (3, 'znR'), (2, 'iS'), (2, 'lV'), (2, 'I'), (1, 'zzF'), (1, 'vG')) + [
        (4, compare), (4, find), (2, numstr), (4, store), (2, op('', 'D', raw=0)), (2, op('', 'A', raw=0))],
    'JSTR': o((2, 'iidvuP'), (2, 'dvnG')) + [(6, jcopy)],
    'REFC': [(5, ref), (3, op('', 'D', raw=0)), (1, stash)],
    'BASE': o((3, 'iB'), (3, 'iH'), (3, 'iO'), (6, 'iwN'), (5, 'wI'), (2, 'swN'), (2, 'uI')),
}


class P(FpProp):
    id = 'C17'
    rule = ('Programs that load STRN, JSTR, REFC or BASE and run all their instructions on generated strings (empty, bytes from 128 on, prefixes, numbers), places with '
            'storage offsets, counts over the end and negative, bases from -1 to 1000 and input words, in 1 to 3 dimensions; compared with models of the fingerprints. '
            'Of a comparison the sign counts, of references that they are distinct and stay the same. Non-trivial: an instruction of a fingerprint ran.')
    quick = 10000
    thorough = 120000
    names = [(5, 'STRN'), (2, 'JSTR'), (2, 'REFC'), (3, 'BASE')]
    ops = OPS
    base = [(2, I.show), (1, I.digit), (1, I.shuffle), (1, I.direction3), (1, I.begin), (1, I.end), (1, 'n')]

    def stdin(self, src):
        W = ['0', '1', '101', 'ff', 'FF', '7f', 'zz', 'Zz', '12', '-5', '+1', '0x10', '777', 'hello world', '\n', '', ' x', 'ABC', '!~', 'a b', '\xe9', '\t9', '12\r', 'a\r', '\r', '9Z', 'I', 'O', '1lI']
        return ''.join(src.pick(W) + src.pick(['\n', '\n', ' ', '']) for _ in range(src.n(7)))

    def check(self, case, ex):
        ex.clean()
        for n, d in case['files'].items():
            ex.put(n, d)
        r = ex.run(case['args'], case.get('stdin', ''))
        if r.hung or r.sig:
            return 'the program %s' % r.end()
        if references(r.out, case['out']) != case['out']:
            return diff(case['out'], r.out)
        if r.code != case['code']:
            return 'expected exit code %d, got %s' % (case['code'], r.end())
        return None


PROP = also(P())
