from lib.fpgen import *

# angles in ten thousandths of a degree, and sines
K15 = dict(KINDS)
K15['a'] = lambda lz, m: num(lz.src.pick([0, 300000, 450000, 600000, 900000, 1800000, -300000, 2700000, 123456, -987654, 3600000, lz.src.int(-4000000, 4000000), lz.src.int(-10**8, 10**8)]))
K15['f'] = lambda lz, m: num(lz.src.pick([0, 10000, -10000, 5000, -5000, 7071, lz.src.int(-10000, 10000), lz.src.int(-10000, 10000)]))
K15['n'] = lambda lz, m: num(lz.src.pick([0, 1, 2, 3, 10, 1000, -5, lz.src.int(-100, 100), lz.src.int(-(1 << 30), 1 << 30)]))
K15['q'] = lambda lz, m: num(lz.src.pick([0, 1, 2, 15, 16, 17, 99, 10000, lz.src.int(0, 100000), lz.src.int(0, 1 << 44)]))
K15['h'] = lambda lz, m: num(lz.src.pick([0, 1, 2, 7, 31, 32, 33, 62, 63, lz.src.int(0, 63)]))
K15['c'] = lambda lz, m: num(lz.src.pick([0, 1, -1, 2, -3, 5, 12, 100, -77, lz.src.int(-2000, 2000), lz.src.int(-2000, 2000), lz.src.int(-(1 << 31), 1 << 31)]))
K15['C'] = lambda lz, m: num(lz.src.int(-(1 << lz.src.int(20, 48)), 1 << lz.src.int(20, 48)))
K15['p'] = lambda lz, m: num(lz.src.pick([2, 3, -2, 10, 7, 1, 0, -1, 5]))
K15['e'] = lambda lz, m: num(lz.src.pick([0, 1, 2, 3, 5, 10, -1, 15, -3]))


def o(*ps):
    return [(w, op(p[:-1], p[-1], K15)) for w, p in ps]


def roma(lz, m, ip):
    n = lz.src.pick([1, 2, 3, 4, 5, 6, 9, 14, 19, 40, 44, 49, 90, 99, 400, 444, 499, 900, 944, 999, 1000, 1999, 3888, lz.src.int(1, 3999), lz.src.int(1, 3999)])
    return num(n) + 'P'


def plane(lz, m, ip):
    """x on top for G and P of ORTH."""
    src = lz.src
    x, y = src.int(-2, 30), src.int(-1, 4) if m.dims > 1 else 0
    return num(y) + num(x)


def jump_x(lz, m, ip):
    return num(max(0, min(ip.pos[0] + lz.src.int(-3, 30), lz.box[0] - 1))) + 'X'


def jump_y(lz, m, ip):
    return num(lz.src.int(0, lz.box[1] - 1)) + 'Y' if m.dims > 1 else 'z'


def lift(lz, m, ip):
    """V and W change one part of the delta; the others stay."""
    src = lz.src
    if m.dims < 3:
        return '1V'
    k = src.pick([1, 1, 2, -1])
    x, z = src.pick([1, 2, 1, 3, -1]), src.pick([1, -1, 1])
    return vec([x, 0, z]) + 'x' + 'z' * src.n(2) + num(k) + src.pick('VWW')


OPS = {
    'BITW': o((3, 'iiA'), (3, 'iiO'), (3, 'iiX'), (2, 'iN'), (3, 'ihL'), (3, 'ihR')),
    'BOOL': o((3, 'iiA'), (3, 'iiO'), (3, 'iiX'), (2, 'iN'), (1, 'bbA'), (1, 'bbO'), (1, 'bbX')),
    'CPLI': o((3, 'ccccA'), (3, 'ccccS'), (3, 'ccccM'), (4, 'ccccD'), (3, 'ccO'), (3, 'ccV'), (2, 'CCV'), (1, 'cuO'), (1, 'ucO'), (1, 'iiiiA'), (1, 'iiiiS')),
    'FIXP': o((2, 'iiA'), (2, 'iiO'), (2, 'iiX'), (2, 'fB'), (2, 'aC'), (2, 'aI'), (2, 'fJ'), (2, 'aT'), (2, 'nU'), (2, 'iN'), (2, 'iV'), (2, 'iS'),
              (2, 'nP'), (2, 'qQ'), (3, 'peR'), (1, '0D')),
    'MODU': o((4, 'ccM'), (4, 'ccR'), (4, 'ccU'), (1, 'ciM'), (1, 'icU')),
    'ORTH': o((3, 'iiA'), (3, 'iiO'), (3, 'iiE'), (2, 'zS')) + [
        (2, lambda lz, m, ip: plane(lz, m, ip) + 'G'), (3, lambda lz, m, ip: num(any_int(lz.src)) + plane(lz, m, ip) + 'P' + plane(lz, m, ip) + 'G'),
        (2, op('', 'V', raw=0)), (1, lambda lz, m, ip: lz.src.pick(['1V', '01-V', '2V', '3V'])), (1, lambda lz, m, ip: lz.src.pick(['1W', '01-W', '0W'])), (1, lift),
        (2, jump_x), (1, jump_y), (2, op('b', 'Z', K15))],
    'ROMA': [(4, roma), (3, lambda lz, m, ip: lz.src.pick('IVXLCDM')), (1, lambda lz, m, ip: lz.src.pick('IVXLCDM') + '.')],
}
OPS['FIXP'][-1] = (1, lambda lz, m, ip: '0D')


class P(FpProp):
    id = 'C15'
    rule = ('Programs that load BITW, BOOL, CPLI, FIXP, MODU, ORTH or ROMA (by ( or -l, sometimes two of them, or unloaded again) and run all their instructions '
            'on small numbers, edge values, angles and whatever the stack holds, in 1 to 3 dimensions; all output and stacks compared with models of '
            'the fingerprints in exact arithmetic (trigonometry rounded as documented, away from ties). Non-trivial: an instruction of a fingerprint ran.')
    quick = 9000
    thorough = 120000
    names = [(3, n) for n in ('BITW', 'BOOL', 'CPLI', 'FIXP', 'ORTH')] + [(1, 'MODU'), (1, 'ROMA')]
    ops = OPS

    def gen(self, src):
        if src.n(60) != 59:
            return FpProp.gen(self, src)
        # FIXP D: a number between 0 and the one given, and not always the same
        bound = [src.pick([0, 1, 2, 3, -1, -4, 9, 1000, -1000, 1 << 31, 1 << 40, -(1 << 40), (1 << 63) - 1, -(1 << 63) + 1, any_int(src)]) for _ in range(src.int(1, 12))]
        r = src.pick([3, 5, -2, 100, 1 << 45])
        bound += [r] * 80
        text = loadcode('FIXP') + ''.join(num(b) + 'D.' for b in bound) + '@'
        return {'kind': 'D', 'bounds': bound, 'files': {'p.b98': text}, 'args': ['-fno-execute', '-fno-filesystem', '-std=' + src.pick(['une98', 'be98', 'tre98']), 'p.b98'],
                'stdin': '', 'out': '', 'code': 0, '_stats': {'random': 1}}

    def check(self, case, ex):
        if case.get('kind') != 'D':
            return FpProp.check(self, case, ex)
        ex.clean()
        for n, d in case['files'].items():
            ex.put(n, d)
        r = ex.run(case['args'])
        if r.hung or r.sig or r.code:
            return 'D: the program %s' % r.end()
        try:
            got = [int(x) for x in r.out.split()]
        except ValueError:
            got = []
        if len(got) != len(case['bounds']):
            return 'D: output %r is not %d numbers' % (r.out[:200], len(case['bounds']))
        for b, x in zip(case['bounds'], got):
            if not min(0, b) <= x <= max(0, b):
                return 'D: %d for %d' % (x, b)
        # of 80 numbers
        if len(set(got[-80:])) < min(abs(case['bounds'][-1]), 6):
            return 'D: of 80 numbers for %d, just %r' % (case['bounds'][-1], sorted(set(got[-80:])))
        if case['bounds'][-1] > 1 << 40 and max(got[-80:]) < 1 << 40:
            return 'D: of 80 numbers for %d, none is above %d' % (case['bounds'][-1], max(got[-80:]))
        return None

    def nontrivial(self, case):
        return case.get('kind') == 'D' or FpProp.nontrivial(self, case)


PROP = P()
