"""Reference model of Funge-93/98 in any number of dimensions, written from the documentation.

A program runs in rounds: one instruction for each IP, in the order in which they were made, a child right before
the next instruction of its parent. What the documents leave open raises OutOfDomain.
"""
import math
from collections import deque

M64 = (1 << 64) - 1
TOP = 1 << 63


def s64(x):
    x &= M64
    return x - (1 << 64) if x & TOP else x


class OutOfDomain(Exception):
    pass


class Budget(Exception):
    pass


NONE, SKIP, BLOCK, UNIMP, NOTAVAIL, UNSPEC = range(6)
HOVER, INVERT, QUEUE, SWITCH, DIVE = 0x2000, 0x4000, 0x8000, 0x10000, 0x20000
FAR = 1 << 61


class Stack:
    __slots__ = ('s', 'ops')

    def __init__(self, s=()):
        self.s = list(s)
        self.ops = 0


class Config:
    def __init__(self, dims=2, std=98, topo='lahey', strings='sgml', cells='int', concurrent=True, execute=False,
                 filesystem=False, inverthl=False, args=('p',), env=(), fingerprints=(), K=None, name='p'):
        self.dims, self.std, self.topo, self.strings, self.cells = dims, std, topo, strings, cells
        self.concurrent, self.execute, self.filesystem, self.inverthl = concurrent, execute, filesystem, inverthl
        self.args, self.env, self.fingerprints = list(args), list(env), list(fingerprints)
        self.K = K or max(2, dims)
        self.name = name


class Field:
    """Cells and the tight bounds of those that are not spaces."""

    def __init__(self, K, charcells=False):
        self.K = K
        self.c = {}
        self.zero = (0,) * K
        self.mins = [0] * K
        self.maxs = [0] * K
        self.char = charcells
        self.lazy = None

    def get(self, p):
        v = self.c.get(p)
        if v is None:
            lz = self.lazy
            if lz is not None and p not in lz.known:
                return lz.need(p, True)
            return 32
        return v

    def fetch(self, p):
        v = self.c.get(p)
        if v is None:
            lz = self.lazy
            if lz is not None and p not in lz.known:
                return lz.need(p, False)
            return 32
        return v

    def put(self, p, v):
        lz = self.lazy
        if lz is not None:
            lz.known.add(p)
        c = self.c
        if type(v) is Sign:
            raise OutOfDomain('only the sign is known')
        if self.char and v != 32:
            v &= 255
            if v > 127:
                v -= 256
            if v == 32:
                raise OutOfDomain('a cell that becomes a space when it is cut')
        if v == 32:
            if p in c:
                del c[p]
                edge = False
                for a, lo, hi in zip(p, self.mins, self.maxs):
                    if a == lo or a == hi:
                        edge = True
                        break
                if edge:
                    if lz is not None:
                        lz.freeze()
                    self.bounds()
        else:
            if not c:
                self.mins = list(p)
                self.maxs = list(p)
            else:
                mins, maxs = self.mins, self.maxs
                for i, a in enumerate(p):
                    if a < mins[i]:
                        mins[i] = a
                    elif a > maxs[i]:
                        maxs[i] = a
            c[p] = v

    def bounds(self):
        if not self.c:
            self.mins = [0] * self.K
            self.maxs = [0] * self.K
        else:
            z = list(zip(*self.c))
            self.mins = [min(a) for a in z]
            self.maxs = [max(a) for a in z]

    def parse(self, start, data, binary, dims):
        """Read text into the field from start on. dims: 0 while it is to be found out. Returns the size."""
        v = list(start) + [0] * (max(4, self.K) - len(start))
        st = list(v)
        mx = list(v)
        last = None
        i, n = 0, len(data)

        def put(ch):
            if any(v[self.K:]):
                raise OutOfDomain('more dimensions than the model was made for')
            self.put(tuple(v[:self.K]), ord(ch))
        while i < n:
            ch = data[i]
            i += 1
            if ch in '\r\n' and not binary:
                if ch == '\r' and i < n and data[i] == '\n':
                    i += 1
                if last not in ('\f', '\v'):
                    v[1] += 1
                    mx[1] = max(mx[1], v[1])
                    v[0] = st[0]
            elif ch == '\f' and not binary:
                if dims == 0 or dims >= 3:
                    v[0], v[1] = st[0], st[1]
                    v[2] += 1
                    mx[2] = max(mx[2], v[2])
                    last = ch
            elif ch == '\v' and not binary:
                if dims == 0 or dims >= 3:
                    v[0], v[1], v[2] = st[0], st[1], st[2]
                    v[3] += 1
                    mx[3] = max(mx[3], v[3])
                    last = ch
            else:
                if ch != ' ':
                    put(ch)
                v[0] += 1
                mx[0] = max(mx[0], v[0])
                last = ch
        return [a - b for a, b in zip(mx, st)]

    def found_dims(self):
        d = 1
        for p in self.c:
            for i in range(self.K - 1, d - 1, -1):
                if p[i]:
                    d = i + 1
                    break
        return d if self.c else 0

    def text(self, dims=2):
        """The source text of the cells: for programs in the non-negative part."""
        if not self.c:
            return ''
        planes = {}
        for p, v in self.c.items():
            planes.setdefault(tuple(p[2:]), {}).setdefault(p[1], {})[p[0]] = v
        if len(planes) == 1 and all(a == 0 for a in list(planes)[0]):
            return _plane(list(planes.values())[0])
        # FF is z+1, VT is 4D+1
        out = []
        maxw = max((p[3] if len(p) > 3 else 0) for p in self.c)
        for w in range(maxw + 1):
            if w:
                out.append('\v')
            zs = [p[2] for p in self.c if (p[3] if len(p) > 3 else 0) == w]
            for z in range((max(zs) if zs else 0) + 1):
                if z:
                    out.append('\f')
                for q, pl in planes.items():
                    if q[0] == z and (q[1] if len(q) > 1 else 0) == w:
                        pl = _plane(pl)
                        out.append(' ' + pl if pl[:1] == '\n' else pl)    # a newline right after FF or VT does not count
        return ''.join(out)


def _plane(rows):
    out = []
    for y in range(max(rows) + 1):
        r = rows.get(y)
        if r:
            line = [' '] * (max(r) + 1)
            for x, v in r.items():
                line[x] = chr(v & 255)
            out.append(''.join(line))
        else:
            out.append('')
    return '\n'.join(out)


class IP:
    __slots__ = ('id', 'parent', 'pos', 'delta', 'storage', 'ss', 'select', 'end', 'prev', 'sem', 'loaded', 'avail',
                 'stopped', 'dirty', 'observers', 'uni', 'gen', 'maxss')

    def __init__(self, id, parent, K):
        self.id, self.parent = id, parent
        self.pos = (0,) * K
        self.delta = (1,) + (0,) * (K - 1)
        self.storage = (0,) * K
        self.ss = [Stack()]
        self.select = 0
        self.end = None
        self.prev = 0
        self.sem = {}
        self.loaded = []
        self.avail = {}
        self.stopped = False
        self.dirty = False
        self.observers = []
        self.gen = None


class Model:
    # beyond these, nothing is compared; raised for the large programs of lib/big.py
    lim = 2000
    lim_many = 60
    lim_out = 200000

    def __init__(self, cfg, field, stdin='', files=None, fingers=None):
        self.cfg = cfg
        self.f = field
        self.dims = cfg.dims
        self.K = field.K
        self.torus = cfg.topo == 'torus'
        self.mode = 0
        self.stdin = stdin
        self.inpos = 0
        self.out = []
        self.outlen = 0
        self.err = []
        self.files = files if files is not None else {}
        self.dirs = set()
        self.ids = 0
        self.runners = deque()
        self.exit = None
        self.moves = 0
        self.kdepth = 0
        self.max_moves = 200000
        self.ticks = 0
        self.fingers = fingers or {}
        self.base = BASES[cfg.std >= 98, min(cfg.dims, 3)] if cfg.dims else {}
        self.stats = {}
        self.refc = {}
        self.wild = False
        self.hook = None
        self.universes = 1
        ip = self.new_ip(None)
        for fp in cfg.fingerprints:
            self.load(ip, fp)
        self.runners.append(ip)

    # -- basics
    def new_ip(self, parent):
        ip = IP(self.ids, parent, self.K)
        self.ids += 1
        return ip

    def count(self, what):
        self.stats[what] = self.stats.get(what, 0) + 1

    def pop(self, st):
        st.ops += 1
        s = st.s
        if not s:
            return 0
        if self.mode & QUEUE:
            return s.pop(0)
        return s.pop()

    def push(self, st, v):
        st.ops += 1
        if self.mode & INVERT:
            st.s.insert(0, v)
        else:
            st.s.append(v)

    def peek(self, st, n):
        """The n-th from the top, from 1."""
        s = st.s
        if n < 1 or n > len(s):
            return 0
        return s[n - 1] if self.mode & QUEUE else s[-n]

    def top(self, ip):
        return ip.ss[-1 - ip.select]

    def second(self, ip):
        return ip.ss[-2 - ip.select]

    def depth(self, ip):
        return len(ip.ss) - ip.select

    def popvec(self, st, n=None):
        n = n or self.dims
        if n > self.K:
            raise OutOfDomain('dimensions')
        v = [0] * self.K
        for i in range(n - 1, -1, -1):
            v[i] = self.pop(st)
        return tuple(v)

    def pushvec(self, st, v):
        for i in range(self.dims):
            self.push(st, v[i])

    def popstr(self, st):
        """Characters until the zero, as the low bytes of the cells."""
        out = []
        while True:
            c = self.pop(st)
            if c == 0:
                return ''.join(out)
            out.append(chr(c & 255))

    def pushstr(self, st, s):
        self.push(st, 0)
        for ch in reversed(s):
            c = ord(ch)
            self.push(st, c - 256 if c > 127 else c)

    def add(self, a, b):
        return tuple([s64(x + y) for x, y in zip(a, b)])

    def write(self, s):
        self.out.append(s)
        self.outlen += len(s)
        if self.outlen > self.lim_out:
            raise Budget('output')

    def getc(self):
        if self.inpos < len(self.stdin):
            c = self.stdin[self.inpos]
            self.inpos += 1
            return ord(c)
        return -1

    def cin_word(self):
        while self.inpos < len(self.stdin) and self.stdin[self.inpos] in ' \t\n\v\f\r':
            self.inpos += 1
        a = self.inpos
        while self.inpos < len(self.stdin) and self.stdin[self.inpos] not in ' \t\n\v\f\r':
            self.inpos += 1
        return self.stdin[a:self.inpos]

    def cin_line(self):
        a = self.inpos
        e = self.stdin.find('\n', a)
        if e < 0:
            self.inpos = len(self.stdin)
            return self.stdin[a:]
        self.inpos = e + 1
        return self.stdin[a:e]

    # -- movement
    def next(self, ip):
        if ip.stopped:
            return
        self.moves += 1
        if self.moves > self.max_moves:
            raise Budget('moves')
        d = ip.delta
        if self.K == 2:
            p = (ip.pos[0] + d[0], ip.pos[1] + d[1])
        else:
            p = tuple([a + b for a, b in zip(ip.pos, d)])
        if self.torus:
            p = (p[0] % 80, p[1] % 25) + p[2:]
            ip.pos = p
            return
        f = self.f
        for n in range(self.dims):
            if not f.mins[n] <= p[n] <= f.maxs[n]:
                break
        else:
            ip.pos = p
            return
        for a in p:
            if not -FAR < a < FAR:
                raise OutOfDomain('far away')
        self.wrap(ip, p)

    def inside(self, p):
        f = self.f
        for n in range(self.dims):
            if not f.mins[n] <= p[n] <= f.maxs[n]:
                return False
        return True

    def wrap(self, ip, p):
        """Back along the delta: over any cells outside the field, through it, to its other side."""
        self.count('wrap')
        d = ip.delta
        f = self.f
        D = self.dims
        back = tuple([-a for a in d])

        def approaching(q):
            closer = False
            for n in range(D):
                if q[n] < f.mins[n]:
                    if back[n] <= 0:
                        return False
                    closer = True
                elif q[n] > f.maxs[n]:
                    if back[n] >= 0:
                        return False
                    closer = True
            return closer
        q = tuple([a + b for a, b in zip(p, back)])
        while not self.inside(q) and approaching(q):
            self.moves += 1
            if self.moves > self.max_moves:
                raise Budget('moves')
            q = tuple([a + b for a, b in zip(q, back)])
        if not self.inside(q):
            self.count('lost')
            ip.pos = p
            return
        if not any(d[:D]):
            raise OutOfDomain('stands still')
        while True:
            r = tuple([a + b for a, b in zip(q, back)])
            self.moves += 1
            if self.moves > self.max_moves:
                raise Budget('moves')
            if not self.inside(r):
                break
            q = r
        ip.pos = q

    def setdelta(self, ip, v):
        if self.mode & HOVER:
            v = tuple([a + b for a, b in zip(ip.delta, v)])
        ip.delta = v
        for a in v:
            if not -FAR < a < FAR:
                raise OutOfDomain('far away')
        for o in ip.observers:
            o(v)

    def reflect(self, ip):
        ip.delta = tuple([-a for a in ip.delta])

    def left(self, ip):
        d = ip.delta
        ip.delta = (d[1], -d[0]) + d[2:]

    def right(self, ip):
        d = ip.delta
        ip.delta = (-d[1], d[0]) + d[2:]

    # -- execution
    def tick(self, ip):
        self.ticks += 1
        while True:
            i = self.f.fetch(ip.pos)
            err = self.execute(ip, i)
            if self.exit is not None:
                return
            if err <= SKIP:
                self.next(ip)
                if err == NONE:
                    return
                self.moves += 1
                if self.moves > self.max_moves:
                    raise Budget('skips')
            elif err == BLOCK:
                return
            else:
                self.count('reflected')
                if err == UNIMP:
                    ch = i & 255
                    n = i & 0xffffffff
                    n = n - (1 << 32) if n >> 31 else n
                    self.err.append("Unimplemented instruction %d '%s' at %s." % (n, chr(ch), self.vec(ip.pos)))
                self.reflect(ip)
                self.next(ip)
                return

    @staticmethod
    def vec(v):
        v = list(v)
        while len(v) > 1 and v[-1] == 0:
            v.pop()
        return '(' + ', '.join(map(str, v)) + ')'

    def execute(self, ip, i):
        if ip.end is not None:
            return self.string(ip, i)
        l = ip.sem.get(i)
        if l:
            h = l[-1]
            if self.mode & DIVE and not h[2]:
                return SKIP
            self.count('fp')
            self.count((h[1].NAME if h[1] is not None else '?') + '.' + chr(i))
            return h[0](self, ip, h[1])
        fn = self.base.get(i)
        if fn is None:
            return UNIMP
        if self.mode & DIVE and i not in MOVEMENT:
            return SKIP
        r = fn(self, ip)
        return NONE if r is None else r

    def string(self, ip, i):
        if i == ip.end:
            ip.prev = 0
            ip.end = None
            return NONE
        st = self.cfg.strings
        if st == 'multispace':
            self.push(self.top(ip), i)
        elif st == 'sgml':
            if not _space(i) or not _space(ip.prev):
                self.push(self.top(ip), i)
                ip.prev = i
            else:
                self.count('squeezed')
                return SKIP
        else:
            if i == 92:
                self.next(ip)
                c = self.f.get(ip.pos)
                self.count('escape')
                self.push(self.top(ip), ESC.get(c, c))
            else:
                self.push(self.top(ip), i)
        return NONE

    def round(self):
        """One instruction of the IP that is next."""
        ip = self.runners[0]
        if not ip.stopped:
            self.tick(ip)
        self.runners.popleft()
        if not ip.stopped:
            self.runners.append(ip)

    def run(self, max_ticks=20000):
        """Returns the exit code."""
        while self.runners:
            if self.ticks > max_ticks:
                raise Budget('ticks')
            if self.hook is not None:
                self.hook(self, self.runners[0])
            self.round()
            if self.exit is not None:
                return self.exit
        return 0

    def stdout(self):
        return ''.join(self.out)

    # -- fingerprints
    def load(self, ip, fp):
        cls = self.fingers.get(fp)
        if cls is None:
            if fp in RESERVED:
                raise OutOfDomain('a fingerprint the model does not have')
            return False
        inst = ip.avail.get(fp)
        if inst is None:
            inst = cls(self, ip)
            ip.avail[fp] = inst
        ip.loaded.append(fp)
        for ch, fn, mv in inst.table():
            ip.sem.setdefault(ch, []).append((fn, inst, mv))
        return True

    def unload(self, ip, fp):
        inst = ip.avail.get(fp)
        if inst is None:
            if fp in RESERVED and fp not in self.fingers:
                raise OutOfDomain('a fingerprint the model does not have')
            return False
        if fp not in ip.loaded:
            raise OutOfDomain('unloaded more often than loaded')
        if ip.loaded[-1] != fp:
            ip.dirty = True
        for ch, fn, mv in inst.table():
            l = ip.sem.get(ch)
            if l:
                l.pop()
        for k in range(len(ip.loaded) - 1, -1, -1):
            if ip.loaded[k] == fp:
                del ip.loaded[k]
                break
        return True

    def clone(self, ip):
        if ip.dirty:
            raise OutOfDomain('a child of an IP with semantics of its own')
        n = self.new_ip(ip.id)
        n.pos, n.delta, n.storage = ip.pos, ip.delta, ip.storage
        n.ss = [Stack(s.s) for s in ip.ss]
        n.select = ip.select
        for fp in ip.loaded:
            inst = ip.avail[fp]
            if getattr(inst, 'touched', False):
                raise OutOfDomain('state of a fingerprint')
            self.load(n, fp)
        self.reflect(n)
        self.next(n)
        self.runners.append(n)
        return n


RESERVED = {int.from_bytes(n, 'big') for n in (
    b'BASE', b'BITW', b'BOOL', b'CPLI', b'DBUG', b'DIRF', b'FING', b'FISH', b'FIXP', b'FPDP', b'FPRT', b'FPSP', b'FRTH',
    b'HRTI', b'IIPC', b'JSTR', b'LONG', b'MODE', b'MVRS', b'NFUN', b'ORTH', b'PERL', b'REFC', b'STRN', b'SUBR', b'TOYS',
    b'MODU', b'NULL', b'ROMA', b'TERM')}
ESC = {ord('0'): 0, ord('a'): 7, ord('b'): 8, ord('t'): 9, ord('n'): 10, ord('v'): 11, ord('f'): 12, ord('r'): 13,
       ord('e'): 27}
MOVEMENT = set(map(ord, '<>^vrhl'))


def _space(i):
    return i == 32 or 9 <= i <= 13


# -- the instructions
def _push(n):
    def f(m, ip):
        m.push(m.top(ip), n)
    return f


def i_skip(m, ip):
    return SKIP


def _unit(d, s):
    def f(m, ip):
        v = [0] * m.K
        v[d] = s
        m.setdelta(ip, tuple(v))
    return f


def _if(d):
    def f(m, ip):
        v = [0] * m.K
        v[d] = 1 if m.pop(m.top(ip)) == 0 else -1
        m.setdelta(ip, tuple(v))
    return f


def i_stop(m, ip):
    ip.stopped = True


def i_tramp(m, ip):
    m.next(ip)


def i_away(m, ip):
    raise OutOfDomain('random')


def i_not(m, ip):
    st = m.top(ip)
    m.push(st, 0 if m.pop(st) else 1)


def _bin(fn):
    def f(m, ip):
        st = m.top(ip)
        a = m.pop(st)
        b = m.pop(st)
        r = fn(b, a)
        if not -TOP <= r < TOP:
            m.count('overflow')
            r = s64(r)
        m.push(st, r)
    return f


def tdiv(b, a):
    if a == 0:
        return 0
    q = abs(b) // abs(a)
    return -q if (a < 0) != (b < 0) else q


def trem(b, a):
    if a == 0:
        return 0
    return b - a * tdiv(b, a)


def i_drop(m, ip):
    m.pop(m.top(ip))


def i_dup(m, ip):
    st = m.top(ip)
    x = m.pop(st)
    m.push(st, x)
    m.push(st, x)


def i_swap(m, ip):
    st = m.top(ip)
    a = m.pop(st)
    b = m.pop(st)
    m.push(st, a)
    m.push(st, b)


def i_numin(m, ip):
    c = m.getc()
    while c != -1 and not 48 <= c <= 57:
        c = m.getc()
    if c == -1:
        m.count('eof')
        return UNSPEC
    n = 0
    while 48 <= c <= 57:
        n = n * 10 + c - 48
        c = m.getc()
    if n >= TOP:
        raise OutOfDomain('a number that is too large')
    if c != -1:
        m.inpos -= 1
    m.push(m.top(ip), n)


def i_charin(m, ip):
    c = m.getc()
    if c == 13:
        c = m.getc()
    if c == -1:
        m.count('eof')
        return UNSPEC
    m.push(m.top(ip), c)


def i_string(m, ip):
    ip.end = 34
    m.count('string')


def i_charout(m, ip):
    m.write(chr(m.pop(m.top(ip)) & 255))


def i_numout(m, ip):
    v = m.pop(m.top(ip))
    if type(v) is Sign:
        raise OutOfDomain('only the sign is known')
    m.write('%d ' % v)


def i_get(m, ip):
    st = m.top(ip)
    v = m.popvec(st)
    m.count('get')
    m.push(st, m.f.get(m.add(v, ip.storage)))


def i_put(m, ip):
    st = m.top(ip)
    v = m.popvec(st)
    m.count('put')
    m.f.put(m.add(v, ip.storage), m.pop(st))


def i_noop(m, ip):
    pass


def _to_semicolon(m, ip):
    lz = m.f.lazy
    if lz is not None:
        lz.over = True
    while True:
        m.next(ip)
        if m.f.fetch(ip.pos) == 59:
            break
    if lz is not None:
        lz.over = False
    m.count('over')


def i_over(m, ip):
    _to_semicolon(m, ip)
    return SKIP


def i_jump(m, ip):
    j = m.pop(m.top(ip))
    if abs(j) > m.lim * 4:
        raise OutOfDomain('long jump')
    if j < 0:
        m.reflect(ip)
    for _ in range(abs(j)):
        m.next(ip)
    if j < 0:
        m.reflect(ip)
    m.count('jump')


def i_reflect(m, ip):
    m.reflect(ip)


def i_abs(m, ip):
    v = m.popvec(m.top(ip))
    m.count('abs')
    m.setdelta(ip, v)


def i_iter(m, ip):
    at = ip.pos
    m.next(ip)
    if m.f.lazy is not None:
        m.f.lazy.iterating = True
    c = m.f.fetch(ip.pos)
    while c == 32 or c == 59:
        if c == 59:
            _to_semicolon(m, ip)
            m.count('k over')
        m.next(ip)
        c = m.f.fetch(ip.pos)
    if m.f.lazy is not None:
        m.f.lazy.iterating = False
    k = m.pop(m.top(ip))
    if k == 0:
        m.count('k0')
        return
    if k < 0 or k > m.lim:
        raise OutOfDomain('count')
    if c == 9:
        raise OutOfDomain('a tab under k')
    ip.pos = at
    m.count('k')
    if m.kdepth > 60:
        raise Budget('nested iterations')
    for _ in range(k):
        m.moves += 1
        if m.moves > m.max_moves:
            raise Budget('iterations')
        m.kdepth += 1
        err = m.execute(ip, c)
        m.kdepth -= 1
        if err > BLOCK or err == BLOCK:
            raise OutOfDomain('an instruction under k that fails')
        if m.exit is not None:
            return
        if ip.stopped:
            return


def i_quit(m, ip):
    m.exit = m.pop(m.top(ip)) & 255


def i_thread(m, ip):
    if not m.cfg.concurrent:
        m.count('denied')
        return NOTAVAIL
    m.count('thread')
    if len(m.runners) > m.lim_many:
        raise Budget('IPs')
    m.clone(ip)


def i_clear(m, ip):
    st = m.top(ip)
    st.s.clear()
    st.ops += 1


def i_under(m, ip):
    if m.depth(ip) < 2:
        return UNSPEC
    if ip.select:
        raise OutOfDomain('a selected stack')
    top, sec = m.top(ip), m.second(ip)
    n = m.pop(top)
    if abs(n) > m.lim:
        raise OutOfDomain('count')
    m.count('under')
    for _ in range(abs(n)):
        if n > 0:
            m.push(top, m.pop(sec))
        else:
            m.push(sec, m.pop(top))


def i_begin(m, ip):
    if ip.select:
        raise OutOfDomain('a selected stack')
    n = m.pop(m.top(ip))
    if abs(n) > m.lim:
        raise OutOfDomain('count')
    if len(ip.ss) > m.lim_many:
        raise Budget('stacks')
    ip.ss.append(Stack())
    top, sec = m.top(ip), m.second(ip)
    if n > 0:
        t = [m.pop(sec) for _ in range(n)]
        for v in reversed(t):
            m.push(top, v)
    else:
        for _ in range(-n):
            m.push(sec, 0)
    m.pushvec(sec, ip.storage)
    ip.storage = m.add(ip.pos, ip.delta)
    m.count('begin')
    if m.mode & SWITCH:
        m.f.put(ip.pos, 125)


def i_end(m, ip):
    ret = NONE
    if m.depth(ip) < 2:
        ret = UNSPEC
    else:
        if ip.select:
            raise OutOfDomain('a selected stack')
        top, sec = m.top(ip), m.second(ip)
        n = m.pop(top)
        if abs(n) > m.lim:
            raise OutOfDomain('count')
        ip.storage = m.popvec(sec)
        if n > 0:
            t = [m.pop(top) for _ in range(n)]
            for v in reversed(t):
                m.push(sec, v)
        else:
            for _ in range(-n):
                m.pop(sec)
        ip.ss.pop()
        m.count('end')
    if m.mode & SWITCH:
        m.f.put(ip.pos, 123)
    return ret


def i_fin(m, ip):
    if not m.cfg.filesystem:
        m.count('denied')
        return NOTAVAIL
    st = m.top(ip)
    name = m.popstr(st)
    flags = m.pop(st)
    va = m.add(m.popvec(st), ip.storage)
    data = m.files.get(name)
    if data is None or not good_name(name):
        m.count('nofile')
        return UNSPEC
    size = m.f.parse(va, data, bool(flags & 1), m.dims)
    m.count('filein')
    m.pushvec(st, tuple(size[:m.K]))
    m.pushvec(st, va)


def good_name(n):
    if '\0' in n or '/' in n or len(n) > 200:
        raise OutOfDomain('path')
    return bool(n) and '/' not in n and n not in ('.', '..') and len(n) < 200


def vlt(a, b):
    for x, y in zip(reversed(a), reversed(b)):
        if x != y:
            return x < y
    return False


def i_fout(m, ip):
    if not m.cfg.filesystem:
        m.count('denied')
        return NOTAVAIL
    st = m.top(ip)
    name = m.popstr(st)
    flags = m.pop(st)
    va = m.add(m.popvec(st), ip.storage)
    vb = m.popvec(st)
    if not good_name(name):
        if name in ('', '.', '..'):
            m.count('nofile')
            return UNSPEC
        raise OutOfDomain('path')
    if m.dims == 1:
        vb = (vb[0], 1) + vb[2:]
        raise OutOfDomain('files of lines')
    if vb[0] < 1 or vb[1] < 1 or vb[0] * vb[1] > m.lim * 10 or any(a < 0 for a in vb[2:]):
        raise OutOfDomain('area')
    out = []
    for y in range(va[1], va[1] + vb[1]):
        row = ''.join([chr(m.f.get((x, y) + va[2:]) & 255) for x in range(va[0], va[0] + vb[0])])
        if flags & 1:
            row = row.rstrip(' ')
        out.append(row + '\n')
    m.files[name] = ''.join(out)
    m.count('fileout')


def i_exec(m, ip):
    if not m.cfg.execute:
        m.count('denied')
        return NOTAVAIL
    st = m.top(ip)
    cmd = m.popstr(st)
    m.count('exec')
    m.push(st, m.system(cmd))


def _system(self, cmd):
    raise OutOfDomain('command')


Model.system = _system


def i_fetch(m, ip):
    m.next(ip)
    m.push(m.top(ip), m.f.get(ip.pos))
    m.count('fetch')


def i_store(m, ip):
    m.next(ip)
    m.f.put(ip.pos, m.pop(m.top(ip)))
    m.count('store')


def _popfp(m, ip):
    st = m.top(ip)
    n = m.pop(st)
    if n > m.lim:
        raise OutOfDomain('count')
    fp = 0
    for _ in range(max(n, 0)):
        fp = ((fp << 8) + m.pop(st)) & M64
    return fp


def fpname_ok(fp):
    b = fp.to_bytes(8, 'big').lstrip(b'\0')
    return all(33 <= c < 127 and c != 47 for c in b)


def i_load(m, ip):
    fp = _popfp(m, ip)
    ret = NONE
    if m.load(ip, fp):
        st = m.top(ip)
        m.push(st, s64(fp))
        m.push(st, 1)
        m.count('load')
    else:
        m.count('noload')
        ret = UNSPEC
    if m.mode & SWITCH:
        m.f.put(ip.pos, 41)
    return ret


def i_unload(m, ip):
    fp = _popfp(m, ip)
    ret = NONE
    if m.unload(ip, fp):
        m.count('unload')
    else:
        m.count('nounload')
        ret = UNSPEC
    if m.mode & SWITCH:
        m.f.put(ip.pos, 40)
    return ret


class Mark(int):
    """A value that is not known before the run: it can be moved, stored and printed."""


def _ood(*_):
    raise OutOfDomain('computing with the time')


for _n in 'add radd sub rsub mul rmul floordiv mod and rand lt gt le ge abs neg lshift rshift'.split():
    setattr(Mark, '__%s__' % _n, _ood)
class Sign(Mark):
    """A value of which only the sign is known."""


def _only0(f):
    def g(self, o):
        if type(o) is Sign or o != 0:
            raise OutOfDomain('only the sign is known')
        return f(int(self), 0)
    return g


import operator
for _n in ('lt', 'gt', 'le', 'ge'):
    setattr(Sign, '__%s__' % _n, _only0(getattr(operator, _n)))
TIME = Mark(7777777777777700001)
DATE = Mark(7777777777777700002)


def sysinfo(m, ip):
    """What y pushes, the last pushed last."""
    st = m.top(ip)
    out = []
    D = m.dims

    def string(s):
        out.append(0)
        for ch in reversed(s):
            c = ord(ch)
            out.append(c - 256 if c > 127 else c)
    out += [0, 0]
    for e in reversed(m.cfg.env):
        string(e)
    out += [0, 0]
    for a in reversed(m.cfg.args):
        string(a)
    sizes = [len(s.s) for s in ip.ss]
    out += sizes[:-1]
    out.append(len(ip.ss[-1].s))
    out.append(len(ip.ss))
    out += [TIME, DATE]
    if m.f.lazy is not None:
        m.f.lazy.bounds_read()
    out += [s64(m.f.maxs[i] - m.f.mins[i]) for i in range(D)]
    out += [m.f.mins[i] for i in range(D)]
    out += ip.storage[:D]
    out += ip.delta[:D]
    out += ip.pos[:D]
    out += [0, ip.id, D, 47, 1, 1, 0x464e2b2b, 8]
    fl = 16 | (1 if m.cfg.concurrent else 0) | (8 if m.cfg.execute else 0) | (6 if m.cfg.filesystem else 0)
    out.append(fl)
    return out


def i_sysinfo(m, ip):
    st = m.top(ip)
    n = m.pop(st)
    if not -(1 << 31) < n < (1 << 31):
        raise OutOfDomain('count')
    if ip.select or m.mode & (QUEUE | INVERT):
        raise OutOfDomain('modes')
    info = sysinfo(m, ip)
    m.count('sysinfo')
    if n > 0:
        if n <= len(info):
            v = info[-n]
        else:
            v = m.peek(st, n - len(info))
            m.count('pick')
        if v in (TIME, DATE) and not m.wild:
            raise OutOfDomain('time')
        m.push(st, v)
    else:
        if not m.wild:
            raise OutOfDomain('time')
        for v in info:
            m.push(st, v)


def i_left(m, ip):
    m.left(ip)
    if m.mode & SWITCH:
        m.f.put(ip.pos, 93)


def i_right(m, ip):
    m.right(ip)
    if m.mode & SWITCH:
        m.f.put(ip.pos, 91)


def i_cmp(m, ip):
    st = m.top(ip)
    b = m.pop(st)
    a = m.pop(st)
    if a < b:
        m.left(ip)
    elif a > b:
        m.right(ip)
    m.count('cmp')


def _hl(s):
    def f(m, ip):
        v = [0] * m.K
        v[2] = -s if m.cfg.inverthl else s
        m.setdelta(ip, tuple(v))
    return f


def _tables():
    U93 = {' ': i_skip, '\t': i_skip, '<': _unit(0, -1), '>': _unit(0, 1), '@': i_stop, '#': i_tramp, '_': _if(0),
           '?': i_away, '!': i_not, '%': _bin(trem), '*': _bin(lambda b, a: b * a), '+': _bin(lambda b, a: b + a),
           '-': _bin(lambda b, a: b - a), '/': _bin(tdiv), '`': _bin(lambda b, a: int(b > a)), '$': i_drop, ':': i_dup,
           '\\': i_swap, '&': i_numin, '~': i_charin, '"': i_string, '.': i_numout, ',': i_charout, 'g': i_get,
           'p': i_put}
    for d in range(10):
        U93[str(d)] = _push(d)
    U98 = {'y': i_sysinfo, 'z': i_noop, ';': i_over, 'j': i_jump, 'r': i_reflect, 'x': i_abs, 'k': i_iter, 'q': i_quit,
           't': i_thread, 'n': i_clear, 'u': i_under, '{': i_begin, '}': i_end, 'i': i_fin, 'o': i_fout, '=': i_exec,
           "'": i_fetch, 's': i_store, '(': i_load, ')': i_unload}
    for k, d in enumerate('abcdef'):
        U98[d] = _push(10 + k)
    B93 = {'^': _unit(1, -1), 'v': _unit(1, 1), '|': _if(1)}
    B98 = {'[': i_left, ']': i_right, 'w': i_cmp}
    T98 = {'h': _hl(1), 'l': _hl(-1), 'm': _if(2)}
    out = {}
    for n98 in (False, True):
        for d in (1, 2, 3):
            t = dict(U93)
            if n98:
                t.update(U98)
            if d >= 2:
                t.update(B93)
                if n98:
                    t.update(B98)
            if d >= 3 and n98:
                t.update(T98)
            out[n98, d] = {ord(k): v for k, v in t.items()}
    return out


BASES = _tables()


def load_text(text, cfg_dims, cells='int', K=None):
    """A field as loaded from a source file. Returns (field, dims)."""
    K = K or max(4, cfg_dims)
    f = Field(K, cells == 'char')
    f.parse((0,) * K, text, False, cfg_dims)
    dims = cfg_dims or f.found_dims()
    return f, dims
