"""Reference model of ><> and *><>: two dimensions, cells on the stacks are doubles, any mistake ends the program."""
import math
from .model98 import *
from .model98 import Model as Model98


class Smell(Exception):
    pass


MOVE_FISH = set(map(ord, '><v^\\/|_#'))
MOVE_STAR = MOVE_FISH | set(map(ord, '`uO'))


def trunc(x):
    """A double as a whole number, as far as C++ defines it."""
    if x != x or not -9.2e18 < x < 9.2e18:
        raise OutOfDomain('conversion')
    return int(x)


class FishModel(Model98):
    STAR = False

    def __init__(self, *a, **kw):
        self.choices = None
        super().__init__(*a, **kw)
        self.base = STAR_TABLE if self.STAR else FISH_TABLE
        self.moving = MOVE_STAR if self.STAR else MOVE_FISH
        self.regs = [None]
        self.fisher_up = True
        self.fisher_cache = (1, 0)
        self.name = None       # of the open file
        self.content = None
        self.at = 0
        ip = self.runners[0]
        if self.STAR:
            ip.observers.append(self.turned)

    def turned(self, v):
        if v[0] and not v[1]:
            self.fisher_cache = v

    def need(self, st, n):
        if len(st.s) < n:
            raise Smell()

    def popvec(self, st):
        y = trunc(self.pop(st))
        x = trunc(self.pop(st))
        return (x, y) + (0,) * (self.K - 2)

    def execute(self, ip, i):
        if ip.end is not None:
            return self.string(ip, i)
        fn = self.base.get(i)
        if fn is None:
            if self.mode & DIVE:
                self.count('unknown while diving')
                return NONE
            self.count('unknown')
            raise Smell()
        if self.mode & DIVE and i not in self.moving:
            self.count('dived')
            return SKIP
        r = fn(self, ip)
        if i > 32:
            self.count(chr(i))
        return NONE if r is None else r

    def string(self, ip, i):
        if i == ip.end:
            ip.end = None
        else:
            self.push(self.top(ip), float(i))
        return NONE

    def tick(self, ip):
        try:
            Model98.tick(self, ip)
        except Smell:
            self.count('smell')
            self.err.append('something smells fishy...')
            self.exit = 1

    def put_num(self, x):
        if x != x or not -9.2e18 < x < 9.2e18:
            raise OutOfDomain('conversion')
        self.write(str(int(x)) if x == int(x) else '%g' % x)


def _dir(x, y):
    def f(m, ip):
        m.setdelta(ip, (x, y) + (0,) * (m.K - 2))
    return f


def _mirror(fn):
    def f(m, ip):
        x, y = ip.delta[:2]
        m.setdelta(ip, fn(x, y) + tuple(ip.delta[2:]))
    return f


def _push(n):
    def f(m, ip):
        m.push(m.top(ip), float(n))
    return f


def _bin(fn):
    def f(m, ip):
        st = m.top(ip)
        m.need(st, 2)
        x = m.pop(st)
        y = m.pop(st)
        m.push(st, float(fn(y, x)))
    return f


def _div(y, x):
    if x == 0:
        raise Smell()
    try:
        return y / x
    except OverflowError:
        return math.inf


def _mod(y, x):
    x, y = trunc(x), trunc(y)
    if x == 0:
        raise Smell()
    return math.fmod(y, x) if max(abs(x), abs(y)) < 1 << 53 else trem(y, x)


def _mul(y, x):
    return y * x


def f_skip(m, ip):
    return SKIP


def f_random(m, ip):
    if not m.choices:
        raise OutOfDomain('random')
    c = m.choices.pop(0)
    m.setdelta(ip, ((1, 0), (-1, 0), (0, 1), (0, -1))[c])


def f_tramp(m, ip):
    m.next(ip)


def f_cond(m, ip):
    st = m.top(ip)
    m.need(st, 1)
    if m.pop(st) == 0:
        m.next(ip)


def f_jump(m, ip):
    st = m.top(ip)
    m.need(st, 2)
    ip.pos = m.popvec(st)


def _string(ch):
    def f(m, ip):
        ip.end = ch
    return f


def f_dup(m, ip):
    st = m.top(ip)
    m.need(st, 1)
    st.s.append(st.s[-1])


def f_drop(m, ip):
    st = m.top(ip)
    m.need(st, 1)
    m.pop(st)


def f_swap(m, ip):
    st = m.top(ip)
    m.need(st, 2)
    st.s[-2:] = [st.s[-1], st.s[-2]]


def f_swap3(m, ip):
    st = m.top(ip)
    m.need(st, 3)
    z, y, x = st.s[-3:]
    st.s[-3:] = [x, z, y]


def f_len(m, ip):
    st = m.top(ip)
    m.push(st, float(len(st.s)))


def f_left(m, ip):
    st = m.top(ip)
    st.s[:] = st.s[1:] + st.s[:1]


def f_right(m, ip):
    st = m.top(ip)
    st.s[:] = st.s[-1:] + st.s[:-1]


def f_rev(m, ip):
    m.top(ip).s.reverse()


def f_new(m, ip):
    st = m.top(ip)
    m.need(st, 1)
    n = m.pop(st)
    if n <= -1:
        raise OutOfDomain('negative count')
    n = trunc(n)
    m.need(st, n)
    new = Stack()
    for _ in range(n):
        m.push(new, m.pop(st))
    ip.ss.insert(len(ip.ss) - ip.select, new)
    m.regs.append(None)


def f_close(m, ip):
    if m.depth(ip) < 2:
        raise Smell()
    st, to = m.top(ip), m.second(ip)
    while st.s:
        m.push(to, m.pop(st))
    del ip.ss[len(ip.ss) - ip.select - 1]
    if len(m.regs) < 2:
        raise OutOfDomain('register')
    m.regs.pop()


def f_char(m, ip):
    st = m.top(ip)
    m.need(st, 1)
    m.write(chr(trunc(m.pop(st)) & 255))


def f_num(m, ip):
    st = m.top(ip)
    m.need(st, 1)
    m.put_num(m.pop(st))


def f_in(m, ip):
    if m.name is not None:
        if m.content is not None and m.at < len(m.content):
            v = ord(m.content[m.at])
            m.at += 1
        else:
            v = -1
        m.count('file read')
    else:
        v = m.getc()
    m.push(m.top(ip), float(v))


def f_reg(m, ip):
    st = m.top(ip)
    if m.regs[-1] is not None:
        m.push(st, m.regs[-1])
        m.regs[-1] = None
    else:
        m.need(st, 1)
        m.regs[-1] = m.pop(st)


def f_get(m, ip):
    st = m.top(ip)
    m.need(st, 2)
    p = m.popvec(st)
    m.push(st, float(m.f.get(p)))


def f_put(m, ip):
    st = m.top(ip)
    m.need(st, 3)
    p = m.popvec(st)
    m.f.put(p, trunc(m.pop(st)))


def f_end(m, ip):
    ip.stopped = True


# -- *><>
def f_fisher(m, ip):
    if ip.delta[1] == 0:
        m.setdelta(ip, (0, 1 if m.fisher_up else -1) + (0,) * (m.K - 2))
        m.fisher_up = not m.fisher_up
    else:
        m.setdelta(ip, m.fisher_cache)


def f_call(m, ip):
    st = m.top(ip)
    m.need(st, 2)
    v = m.popvec(st)
    ip.ss.insert(len(ip.ss) - ip.select - 1, Stack([float(ip.pos[0]), float(ip.pos[1])]))
    ip.pos = v


def f_return(m, ip):
    if m.depth(ip) < 2:
        raise Smell()
    st = m.second(ip)
    m.need(st, 2)
    ip.pos = m.popvec(st)
    del ip.ss[len(ip.ss) - ip.select - 2]


def f_dive(m, ip):
    m.mode |= DIVE


def f_rise(m, ip):
    m.mode &= ~DIVE


def f_inc(m, ip):
    if not ip.select:
        raise Smell()
    ip.select -= 1


def f_dec(m, ip):
    if ip.select >= len(ip.ss) - 1:
        raise Smell()
    ip.select += 1


def f_file(m, ip):
    if not m.cfg.filesystem:
        m.count('denied')
        raise Smell()
    st = m.top(ip)
    m.need(st, 1)
    n = m.pop(st)
    if n <= -1:
        raise OutOfDomain('negative count')
    n = trunc(n)
    m.need(st, n)
    if any(not -129 < x < 256 for x in st.s[len(st.s) - n:]):
        raise OutOfDomain('conversion')
    s = ''.join(chr(trunc(m.pop(st)) & 255) for _ in range(n))
    if m.name is None:
        s = s[::-1]
        if not good_name(s):
            raise OutOfDomain('name')
        m.name = s
        m.content = m.files.get(s)
        m.at = 0
        m.count('opened')
    else:
        m.files[m.name] = s
        m.name = None
        m.count('written')


def f_sleep(m, ip):
    st = m.top(ip)
    m.need(st, 1)
    if not 0 <= m.pop(st) <= 0.05:
        raise OutOfDomain('sleep')


def f_clock(m, ip):
    raise OutOfDomain('time')


def _add(y, x):
    return y + x


def _fish():
    t = {' ': f_skip, '>': _dir(1, 0), '<': _dir(-1, 0), 'v': _dir(0, 1), '^': _dir(0, -1),
         '\\': _mirror(lambda x, y: (y, x)), '/': _mirror(lambda x, y: (-y, -x)), '|': _mirror(lambda x, y: (-x, y)),
         '_': _mirror(lambda x, y: (x, -y)), '#': _mirror(lambda x, y: (-x, -y)),
         'x': f_random, '!': f_tramp, '?': f_cond, '.': f_jump,
         '+': _bin(_add), '-': _bin(lambda y, x: y - x), '*': _bin(_mul), ',': _bin(_div), '%': _bin(_mod),
         '=': _bin(lambda y, x: y == x), ')': _bin(lambda y, x: y > x), '(': _bin(lambda y, x: y < x),
         "'": _string(39), '"': _string(34), ':': f_dup, '~': f_drop, '$': f_swap, '@': f_swap3, 'l': f_len,
         '{': f_left, '}': f_right, 'r': f_rev, '[': f_new, ']': f_close, 'o': f_char, 'n': f_num, 'i': f_in,
         '&': f_reg, 'g': f_get, 'p': f_put, ';': f_end}
    for k, d in enumerate('0123456789abcdef'):
        t[d] = _push(k)
    return {ord(k): v for k, v in t.items()}


FISH_TABLE = _fish()
STAR_TABLE = dict(FISH_TABLE)
STAR_TABLE.update({ord(k): v for k, v in {
    '`': f_fisher, 'C': f_call, 'R': f_return, 'u': f_dive, 'O': f_rise, 'I': f_inc, 'D': f_dec, 'F': f_file,
    'S': f_sleep, 'h': f_clock, 'm': f_clock, 's': f_clock}.items()})


class StarModel(FishModel):
    STAR = True
