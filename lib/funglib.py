"""A model of fingerprints that are written in Funge: files of planes, one for each letter, that run in a universe of their own and act on their caller."""
from .model98 import Model, Field, Config, Stack, IP, OutOfDomain, Budget, UNSPEC, NONE, BASES
from .fingers import FINGERS, Finger, finger, fpid, _wrap
from collections import deque

DYNAMIC = int.from_bytes(b'dynamicf', 'big')


def parse(text, K, once=False):
    """Returns the cells and the letters."""
    f = Field(K)
    letters = []
    z = y = 0
    for line in text.split('\n'):
        if len(line) == 2 and line[0] == '=' and 'A' <= line[1] <= 'Z':
            if once and line[1] in letters:
                raise OutOfDomain('a plane twice')
            z, y = ord(line[1]) - 65, 0
            letters.append(line[1])
            continue
        for x, ch in enumerate(line):
            f.put((x, y, z) + (0,) * (K - 3), ord(ch))
        y += 1
    return f, letters


ENV = ('f', 'cfg', 'dims', 'torus', 'mode', 'base', 'runners', 'fingers', 'kdepth')


class Swap:
    """Another universe for a while."""

    def __init__(self, m, env):
        self.m, self.env = m, env

    def __enter__(self):
        m = self.m
        self.old = [getattr(m, a) for a in ENV]
        for a, v in zip(ENV, self.env):
            setattr(m, a, v)

    def __exit__(self, *a):
        for a, v in zip(ENV, self.old):
            setattr(self.m, a, v)


def library(name, text):
    """The class of a fingerprint made of a file."""
    class Lib(Finger):
        NAME = name

        def __init__(self, m, ip):
            Finger.__init__(self, m, ip)
            if m.K < 3:
                raise OutOfDomain('dimensions')
            self.f, self.letters = parse(text, m.K, True)
            self.cfg = Config(dims=3, K=m.K, execute=True, filesystem=True, args=(), env=(), name=name)
            self.mode = 0
            self.depth = 0

        def table(self):
            return [(ord(ch), _call(ch), False) for ch in self.letters]

        def call(self, ch, m, ip):
            if self.depth:
                raise OutOfDomain('a fingerprint that calls itself')
            if ip.select:
                raise OutOfDomain('a selected stack')
            if getattr(m, 'nested', 0) > 5:
                raise OutOfDomain('too deep')
            m.count('lib')
            here = [getattr(m, a) for a in ENV]
            fingers = dict(here[7])
            fingers[DYNAMIC] = lambda m, i: Dynamic(m, i, ip, here)
            inner = deque()
            self.depth += 1
            m.nested = getattr(m, 'nested', 0) + 1
            try:
                with Swap(m, (self.f, self.cfg, 3, False, self.mode, BASES[True, 3], inner, fingers, 0)):
                    n = m.new_ip(ip.id)
                    n.pos = (0, 0, ord(ch) - 65) + (0,) * (m.K - 3)
                    n.ss = ip.ss
                    m.load(n, DYNAMIC)
                    inner.append(n)
                    ticks = 0
                    while inner:
                        ticks += 1
                        if ticks > 1500:
                            raise Budget('ticks')
                        m.round()
                        if m.exit is not None:
                            raise OutOfDomain('the end of a library')
                    self.mode = m.mode
            finally:
                self.depth -= 1
                m.nested -= 1

    Lib.CODE = {}
    return Lib


def _call(ch):
    def f(m, ip, inst):
        inst.call(ch, m, ip)
        return NONE
    return f


class Dynamic(Finger):
    NAME = 'dynamicf'

    def __init__(self, m, ip, caller, env):
        Finger.__init__(self, m, ip)
        self.caller, self.env = caller, env

    def table(self):
        return [(ord(ch), fn, False) for ch, fn in self.LETTERS]

    def outside(self, m):
        return Swap(m, self.env)

    def flat(self, m, v):
        """A vector of this universe for the other one."""
        if any(v[self.env[2]:]):
            raise OutOfDomain('dimensions')
        return v

    def do_B(self, m, ip, st):
        with self.outside(m):
            m.reflect(self.caller)
            m.next(self.caller)
            m.reflect(self.caller)

    def do_D(self, m, ip, st):
        v = self.flat(m, m.popvec(st))
        if not any(v):
            raise OutOfDomain('no direction')
        with self.outside(m):
            m.setdelta(self.caller, v)

    def do_E(self, m, ip, st):
        m.push(st, len(st.s))

    def do_F(self, m, ip, st):
        with self.outside(m):
            m.next(self.caller)

    def do_G(self, m, ip, st):
        v = m.popvec(st)
        with self.outside(m):
            c = m.f.get(v)
        m.push(st, c)

    def do_K(self, m, ip, st):
        u = m.pop(st)
        if u < 0:
            return UNSPEC
        m.push(st, m.peek(st, u + 1))

    def do_L(self, m, ip, st):
        self.caller.pos = self.flat(m, m.popvec(st))

    def do_M(self, m, ip, st):
        m.push(st, self.env[4] >> 12)

    def do_N(self, m, ip, st):
        with self.outside(m):
            c = m.f.get(m.add(self.caller.pos, self.caller.delta))
        m.push(st, c)

    def do_O(self, m, ip, st):
        u = m.pop(st)
        if abs(u) > 500:
            raise OutOfDomain('large')
        a = [m.pop(st) for _ in range(abs(u) + 1)]
        if u < 0:
            a = a[1:] + a[:1]
        else:
            a = a[-1:] + a[:-1]
        for v in reversed(a):
            m.push(st, v)

    def do_P(self, m, ip, st):
        v = self.flat(m, m.popvec(st))
        n = m.pop(st)
        with self.outside(m):
            m.f.put(v, n)

    def do_Q(self, m, ip, st):
        c = self.caller
        if st is not m.top(c):
            raise OutOfDomain('a child that has a stack of its own')
        for v in (c.pos, c.delta, c.storage):
            for a in v[:self.env[2]]:
                m.push(st, a)

    def do_R(self, m, ip, st):
        with self.outside(m):
            m.reflect(self.caller)

    def do_S(self, m, ip, st):
        self.caller.storage = self.flat(m, m.popvec(st))

    def do_X(self, m, ip, st):
        self.caller.stopped = True
        ip.stopped = True


Dynamic.LETTERS = [(ch, _wrap(getattr(Dynamic, 'do_' + ch))) for ch in 'BDEFGKLMNOPQRSX']


def decimal(n):
    if n < 0 or n > 1 << 62:
        raise OutOfDomain('where it goes wrong')
    return str(n)


@finger('TERM')
class TERM(Finger):
    """Control sequences of terminals."""

    def do_C(self, m, ip, st):
        m.ids += 1
        m.write('\x1b[2J')

    def do_H(self, m, ip, st):
        m.ids += 1
        m.write('\x1b[1;1H')

    def do_L(self, m, ip, st):
        m.ids += 1
        m.write('\x1b[0K')

    def do_S(self, m, ip, st):
        m.ids += 1
        m.write('\x1b[0J')

    def move(self, m, st, down):
        m.ids += 1
        n = m.pop(st)
        if n <= 0:
            n, down = -n, not down
        m.write('\x1b[' + decimal(n) + ('B' if down else 'A'))

    def do_D(self, m, ip, st):
        self.move(m, st, True)

    def do_U(self, m, ip, st):
        self.move(m, st, False)

    def do_G(self, m, ip, st):
        m.ids += 1
        y, x = m.pop(st), m.pop(st)
        m.write('\x1b[%s;%sH' % (decimal(y + 1), decimal(x + 1)))
