import time
from lib.fishgen import *
from lib import fishgen as G
from lib.fpgen import FpProp, op as fop, KINDS, num, loadcode, unloadcode
from lib import items as I
from lib.big import also


def under_water(item):
    """While diving, mostly what is skipped, what moves, and the way up."""
    def f(lz, m, ip):
        if m.mode & 0x20000:
            k = lz.src.n(8)
            if k < 2:
                return 'O'
            if k < 5:
                return lz.src.pick('><v^/\\|_#`u')
            return lz.src.pick('0n;+~."?!.lgpxiCRIDFA')
        return item(lz, m, ip) if not isinstance(item, str) else item
    return f


def call(lz, m, ip):
    j = G.jump(lz, m, ip)[:-1]
    return j + 'C'


def ret(lz, m, ip):
    if m.depth(ip) < 2 and lz.src.n(100):
        return call(lz, m, ip)
    if m.depth(ip) >= 2 and len(m.second(ip).s) < 2 and lz.src.n(100):
        return 'D' + G.fnum(lz.src.int(0, 90)) + G.fnum(lz.src.int(0, 3)) + 'I'
    return 'R'


def select(lz, m, ip):
    c = lz.src.pick('ID')
    if lz.src.n(100):
        if ip.select and (c == 'I' or ip.select >= len(ip.ss) - 1):
            return 'I'
        if len(ip.ss) < 2:
            return '0['
        return 'D'
    return c


def file(lz, m, ip):
    src = lz.src
    if m.name is None:
        n = src.pick(['a', 'in', 'none', 'new'])
        return '"%s"%dF' % (n, len(n)) + src.pick(['', 'i', 'ii'])
    k = src.n(4)
    if k == 0:
        st = m.top(ip)
        return G.fnum(min(len(st.s), 12)) + 'F' if all(-129 < x < 256 for x in st.s) else '0F'
    if k == 1:
        return G.pad(lz, m, ip, 1) + 'o'
    t = ''.join(src.pick('xyz\xff 0') for _ in range(src.n(4)))
    return ('"%s"' % t if t else '') + '%dF' % len(t)


def fread(lz, m, ip):
    return 'i'


def wrong(lz, m, ip):
    return G.wrong(lz, m, ip) if lz.src.n(50) == 49 else '1n'


# -- the FISH fingerprint
def fish(letters):
    return lambda lz, m, ip: lz.src.pick(letters)


def dive98(lz, m, ip):
    if m.mode & 0x20000:
        return lz.src.pick('OOO><v^HVTzA1.$@"U') if not lz.src.n(3) else 'O'
    return 'U'


def fselect(lz, m, ip):
    if len(ip.ss) < 2:
        return num(lz.src.int(0, 3)) + '{'
    return lz.src.pick('DI')


def finish98d(lz, m, ip):
    if m.mode & 0x20000 and ip.end is None:
        return 'O'
    if ip.select and ip.end is None:
        return 'I'
    return finish98(lz, m, ip)


class F98(FpProp):
    names = [(1, 'FISH')]
    ops = {'FISH': [(3, fish('CTLRS')), (3, fish('HVMN')), (3, fish('F')), (2, dive98), (2, fselect), (4, lambda lz, m, ip: '12345'[:lz.src.int(1, 5)]),
                    (2, I.begin), (2, I.end), (1, I.turn), (1, I.fly), (2, lambda lz, m, ip: lz.src.pick('01') + 'C'), (1, I.under)]}
    dims = ((5, 2), (2, 3))
    box = {2: (120, 5), 3: (80, 5, 2)}

    def build_args(self, src):
        return {'finisher': finish98d}


F = F98()


class P(FishProp):
    id = 'C22'
    rule = ('*><> programs with the fisherman, calls and returns, diving and rising, selection of stacks, files and the clock among all instructions of ><>, and Befunge-98 programs with the FISH '
            'fingerprint; stdout, exit code, diagnostic and files compared with a model, the clock with the clock. Non-trivial: at least ten instructions ran, or the clock.')
    quick = 14000
    thorough = 150000
    quick_time = 60
    star = True
    table = [(w, under_water(t)) for w, t in [
        (6, number), (5, out), (2, op('+-*', 2)), (1, nonzero), (1, op('=)(', 2)), (2, op(':', 1)), (1, op('$', 2)), (1, op('@', 3)), (1, 'l'),
        (2, lambda lz, m, ip: lz.src.pick('{}r')), (2, newstack), (2, closestack), (2, register), (4, move), (4, '`'), (2, cond), (2, jump), (4, call), (4, ret), (2, 'u'),
        (1, 'O'), (4, select), (3, file), (1, fread), (1, put), (1, get), (1, string), (1, '0S'), (1, wrong)]]

    def config(self, src):
        cfg = FishProp.config(self, src)
        cfg.filesystem = src.n(8) != 7
        return cfg

    def files(self, src):
        return {'a': src.pick(['', 'xyz', '\xff\n1']), 'in': 'hello'}

    def gen(self, src):
        k = src.n(40)
        if k >= 28:
            return F.gen(src) if k < 39 else self.sleep(src) if src.n(6) == 5 else self.clock(src)
        return FishProp.gen(self, src)

    def sleep(self, src):
        """S sleeps for so many tenths of a second: no less, and not much more."""
        ms, text = 0, ''
        for _ in range(src.int(1, 4)):
            a, b = src.int(0, 3), src.pick([1, 1, 2, 4])
            ms += a * 100 / b
            text += '%d%sS' % (a, '%d,' % b if b > 1 else '') + src.pick(['', '1n'])
        return {'kind': 'sleep', 'files': {'p.sf': text + '7n;'}, 'args': ['-fno-execute', '-fno-filesystem', 'p.sf'], 'ms': ms, 'out': text.count('1n') * '1' + '7', 'code': 0,
                '_stats': {'sleep': 1}}

    def slept(self, case, ex):
        took = None
        for _ in range(3):
            ex.clean()
            ex.put('p.sf', case['files']['p.sf'])
            t0 = time.monotonic()
            r = ex.run(case['args'])
            took = 1000 * (time.monotonic() - t0)
            if r.hung or r.sig or r.code or r.out != case['out']:
                return 'the program %s, and wrote %r for %r' % (r.end(), r.out, case['out'])
            if took < case['ms'] - 1:
                return 'it slept for %d ms at most, not %d' % (took, case['ms'])
            if took < case['ms'] + 1500:
                return None
        return 'it took %d ms to sleep for %d' % (took, case['ms'])

    def clock(self, src):
        seq = ''.join(src.pick(['h', 'm', 's', 'h', '5~', '"a"~', 'r']) for _ in range(src.int(1, 12)))
        text = ''.join(c + 'nao' if c in 'hms' else c for c in seq) + ';'
        tz = src.pick(['UTC0', 'AAA-5:30', 'BBB+11', 'CCC-13'])
        return {'kind': 'clock', 'files': {'p.sf': text}, 'args': ['-fno-execute', '-fno-filesystem', 'p.sf'], 'env': {'TZ': tz}, 'seq': [c for c in seq if c in 'hms'],
                'shift': {'UTC0': 0, 'AAA-5:30': 330, 'BBB+11': -660, 'CCC-13': 780}[tz], 'out': '', 'code': 0, '_stats': {'clock': 1}}

    def check(self, case, ex):
        if 'smell' in case:
            return FishProp.check(self, case, ex)
        if case.get('kind') == 'sleep':
            return self.slept(case, ex)
        if case.get('kind') != 'clock':
            return judge(case, ex)
        ex.clean()
        for n, d in case['files'].items():
            ex.put(n, d)
        t0 = int(time.time())
        r = ex.run(case['args'], env=case['env'])
        t1 = int(time.time())
        if r.hung or r.sig or r.code:
            return 'the program %s' % r.end()
        got = r.out.split('\n')[:-1]
        for t in range(t0, t1 + 1):
            s = t + case['shift'] * 60
            if got == [str({'h': s // 3600 % 24, 'm': s // 60 % 60, 's': s % 60}[c]) for c in case['seq']]:
                return None
        if t1 - t0 > 1 or t1 != t0:
            # it may have passed from one second to the next between two instructions
            for c, g in zip(case['seq'], got):
                if g not in [str({'h': s // 3600 % 24, 'm': s // 60 % 60, 's': s % 60}[c]) for s in [t + case['shift'] * 60 for t in range(t0, t1 + 1)]]:
                    break
            else:
                if len(got) == len(case['seq']):
                    return None
        return 'the clock says %r for %r at %d, %d minutes from UTC' % (got, case['seq'], t1, case['shift'])

    def labels(self, case):
        return [k for k in case.get('_stats', ()) if len(k) > 1 or k in '[]CRuOIDF`']


PROP = also(P())
