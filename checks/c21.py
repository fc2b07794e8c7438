from lib.fishgen import *
from lib.big import also


class P(FishProp):
    id = 'C21'
    rule = ('><> programs made cell by cell: arithmetic in doubles, comparisons, strings, stack instructions, stacks with registers, mirrors, jumps, code that changes, '
            'input and mistakes (too few values, zero divisors, unknown instructions); stdout, exit code and the diagnostic compared with a model; and programs in which x '
            'stands between arms, walked until each direction came up. Non-trivial: at least ten instructions ran.')
    quick = 14000
    thorough = 150000
    quick_time = 60
    table = [(6, number), (5, out), (4, op('+-*', 2)), (2, nonzero), (2, op('=)(', 2)), (3, op(':', 1)), (1, op('~', 1)), (2, op('$', 2)), (3, op('@', 3)), (2, 'l'),
             (4, lambda lz, m, ip: lz.src.pick('{}r')), (3, newstack), (3, closestack), (3, register), (5, move), (3, cond), (3, jump), (2, put), (2, get), (2, string), (1, 'i'),
             (1, lambda lz, m, ip: wrong(lz, m, ip) if lz.src.n(40) == 39 else '1n')]

    def gen(self, src):
        if src.n(60) == 59:
            return self.walker(src)
        return FishProp.gen(self, src)

    def walker(self, src):
        """x between four arms that print their digit and go back to it, as often as a counter says."""
        d = src.perm('123456789')[:4]
        n = 240
        cells = {}
        cx, cy = 30, 28
        for ch, x, y in zip(d, (1, -1, 0, 0), (0, 0, 1, -1)):
            for k, c in enumerate(ch + 'n1+:' + fnum(n) + '=?;' + fnum(cx - x) + fnum(cy - y) + '.'):
                cells[cx + x * (k + 1), cy + y * (k + 1)] = ord(c)
        for k, c in enumerate('0' + fnum(cx - 1) + fnum(cy) + '.'):
            cells[k, 0] = ord(c)
        cells[cx, cy] = ord('x')
        f = Field(2)
        f.c = cells
        name = src.pick(['p.fish', 'p.sf'])
        return {'kind': 'walk', 'files': {name: f.text()}, 'args': ['-fno-execute', '-fno-filesystem', name], 'digits': ''.join(d), 'n': n, 'out': '', 'code': 0,
                '_stats': {'x walk': 1}}

    def check(self, case, ex):
        if case.get('kind') != 'walk':
            return FishProp.check(self, case, ex)
        ex.clean()
        for n, d in case['files'].items():
            ex.put(n, d)
        r = ex.run(case['args'])
        if r.hung or r.sig or r.code:
            return 'the walk %s' % r.end()
        if len(r.out) != case['n'] or set(r.out) - set(case['digits']):
            return 'the walk takes other ways than the four unit ones: %r' % r.out[:300]
        for c in case['digits']:
            if r.out.count(c) < case['n'] / 16:
                return 'of %d random directions, %d were direction %d' % (case['n'], r.out.count(c), case['digits'].index(c))
        return None


PROP = also(P())
