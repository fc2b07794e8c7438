import time
from lib.engine import Prop


class P(Prop):
    id = 'C27'
    rule = ('Programs that mark, erase and read the timer of HRTI, with waits (sleep through =) of known length between: every reading is at least the time known to have passed '
            'since the mark, at most the time the whole program took, readings of one mark do not decrease, readings without a mark reflect, S is the part of the second of a moment of the run, G is at least 1. '
            'Non-trivial: a mark was read.')
    quick = 900
    thorough = 12000
    quick_time = 60
    thorough_time = 400
    wall = 20.0

    def gen(self, src):
        """A row of code; the model here is a list of what must be true of each number printed."""
        code = '"ITRH"4($$' if src.n(2) else ''
        args = ['-lHRTI'] if not code else []
        marked = None
        checks = []
        sleeps = 0
        n = src.int(2, 14)
        if src.n(6) == 5:
            # without a mark T reflects: back over what is there, to a way out
            pre = code + src.pick(['', 'ME', 'MEE', 'E', 'MT.E'])
            if 'MT' in pre:
                checks.append(('T', 0, 0))
            x = len(pre)
            text = pre + '#vT\n' + ' ' * (x + 1) + '>71*.@\n'
            checks.append(('=', 7))
            case = {'files': {'p.b98': text}, 'args': ['-std=be98'] + args + ['p.b98'], 'checks': checks, '_stats': {'unmarked': 1}}
            return case
        if src.n(30) == 29:
            # several waits: not all end on a full millisecond
            code += 'G.M'
            checks.append(('G',))
            slept = 0
            for _ in range(5):
                ms = src.pick([1, 2, 3])
                slept += ms * 1000
                code += '0"%s"=$T.' % ('sleep 0.%03d' % ms)[::-1]
                checks.append(('T', slept, 1))
            return {'files': {'p.b98': code + '@\n\n'}, 'args': ['-std=be98'] + args + ['p.b98'], 'checks': checks, 'fine': True, '_stats': {'T': 1, 'G': 1, 'fine': 1}}
        slept = 0
        events = []
        for _ in range(n):
            k = src.n(12)
            if k < 3:
                code += 'M'
                marked = slept
                events.append('M')
            elif k == 3:
                code += 'E'
                marked = None
            elif k < 7:
                if marked is None:
                    code += 'M'
                    marked = slept
                    events.append('M')
                code += 'T.'
                checks.append(('T', slept - marked, events.count('M')))
            elif k == 7:
                code += 'G.'
                checks.append(('G',))
            elif k < 10:
                code += 'S.'
                checks.append(('S',))
            elif sleeps < 2:
                ms = src.pick([3, 10, 25])
                code += '0"%s"=$' % ('sleep 0.%03d' % ms)[::-1]
                slept += ms * 1000
                sleeps += 1
            else:
                code += '"zzz"$$$'
        code += '@'
        return {'files': {'p.b98': code + '\n\n'}, 'args': ['-std=be98'] + args + ['p.b98'], 'checks': checks, '_stats': {k: 1 for k in set(c[0] for c in checks)}}

    def check(self, case, ex):
        ex.clean()
        for n, d in case['files'].items():
            ex.put(n, d)
        t0, w0 = time.monotonic(), time.time()
        r = ex.run(case['args'], env={'PATH': '/usr/bin:/bin'})
        t1, w1 = time.monotonic(), time.time()
        if r.hung or r.sig or r.code:
            return 'the program %s; stderr %r' % (r.end(), r.err[:300])
        try:
            got = [int(x) for x in r.out.split()]
        except ValueError:
            return 'numbers were expected, got %r' % r.out
        if len(got) != len(case['checks']):
            return '%d numbers were expected, got %r' % (len(case['checks']), r.out)
        if case.get('fine') and got[0] <= 100 and not any(v % 1000 for v in got[1:]):
            return 'a granularity of %d microseconds, but T gave %r' % (got[0], got[1:])
        took = int((t1 - t0) * 1e6) + 1
        last = {}
        for c, v in zip(case['checks'], got):
            if c[0] == '=':
                if v != c[1]:
                    return 'expected %d, got %d' % (c[1], v)
            elif c[0] == 'G':
                if v < 1 or v > 1000000:
                    return 'a granularity of %d microseconds' % v
            elif c[0] == 'T':
                if v < c[1] - 500 or v > took:
                    return 'T gave %d microseconds, at least %d have passed and at most %d' % (v, c[1], took)
                if v < last.get(c[2], 0):
                    return 'T went back from %d to %d' % (last[c[2]], v)
                last[c[2]] = v
            else:
                if not 0 <= v < 1000000:
                    return 'S gave %d' % v
                lo, hi = int(w0 * 1e6) - 20000, int(w1 * 1e6) + 20000
                if hi - lo < 1000000 and not any(lo <= (lo // 1000000 + k) * 1000000 + v <= hi for k in (0, 1)):
                    return 'S gave %d, the run lasted from %d to %d' % (v, lo % 1000000, hi % 1000000)
        return None

    def nontrivial(self, case):
        return 'T' in case['_stats']

    def labels(self, case):
        return list(case['_stats'])

    def sample(self, case):
        return {'args': case['args'], 'files': case['files'], 'checks': case['checks']}


PROP = P()
