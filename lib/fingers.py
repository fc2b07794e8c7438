"""Models of the fingerprints. A class has CODE (letter -> function(m, ip, inst)) and MOVES, the letters that are movement."""
from .model98 import OutOfDomain, Budget, NONE, SKIP, BLOCK, UNSPEC, UNIMP, NOTAVAIL, s64, TOP, M64


def fpid(name):
    return int.from_bytes(name.encode('latin-1'), 'big')


class Finger:
    CODE = {}
    MOVES = ''

    def __init__(self, m, ip):
        self.m, self.ip = m, ip
        self.touched = False

    def table(self):
        return [(ord(ch), fn, ch in self.MOVES) for ch, fn in self.CODE.items()]


FINGERS = {}


def finger(name):
    def deco(cls):
        cls.NAME = name
        cls.CODE = {ch: _wrap(getattr(cls, 'do_' + ch)) for ch in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if hasattr(cls, 'do_' + ch)}
        FINGERS[fpid(name)] = cls
        return cls
    return deco


def _wrap(fn):
    def f(m, ip, inst):
        r = fn(inst, m, ip, m.top(ip))
        return NONE if r is None else r
    return f


@finger('PERL')
class PERL(Finger):
    def do_E(self, m, ip, st):
        if not m.cfg.execute:
            m.count('denied')
            return UNSPEC
        m.pushstr(st, str(m.perl(m.popstr(st))))

    def do_I(self, m, ip, st):
        if not m.cfg.execute:
            m.count('denied')
            return UNSPEC
        m.push(st, m.perl(m.popstr(st)))

    def do_S(self, m, ip, st):
        m.push(st, 1)


# -- bits
@finger('BITW')
class BITW(Finger):
    def do_A(self, m, ip, st):
        a, b = m.pop(st), m.pop(st)
        m.push(st, b & a)

    def do_O(self, m, ip, st):
        a, b = m.pop(st), m.pop(st)
        m.push(st, b | a)

    def do_X(self, m, ip, st):
        a, b = m.pop(st), m.pop(st)
        m.push(st, b ^ a)

    def do_N(self, m, ip, st):
        m.push(st, ~m.pop(st))

    def do_L(self, m, ip, st):
        a, b = m.pop(st), m.pop(st)
        if not 0 <= a < 64:
            raise OutOfDomain('shift')
        m.push(st, s64(b << a))

    def do_R(self, m, ip, st):
        a, b = m.pop(st), m.pop(st)
        if not 0 <= a < 64:
            raise OutOfDomain('shift')
        m.push(st, b >> a)


@finger('BOOL')
class BOOL(Finger):
    do_A, do_O, do_X, do_N = BITW.do_A, BITW.do_O, BITW.do_X, BITW.do_N


# -- numbers
def small(*v):
    for x in v:
        if not -(1 << 20) <= x <= (1 << 20):
            raise OutOfDomain('large')


def fit(x):
    if not -TOP <= x < TOP:
        raise OutOfDomain('overflow')
    return x


def rdiv(n, d):
    """Round half away from zero."""
    if d < 0:
        n, d = -n, -d
    q = (2 * abs(n) + d) // (2 * d)
    return q if n >= 0 else -q


@finger('CPLI')
class CPLI(Finger):
    def popc(self, m, st):
        i = m.pop(st)
        return m.pop(st), i

    def pushc(self, m, st, r, i):
        m.push(st, r)
        m.push(st, i)

    def do_A(self, m, ip, st):
        (c, d), (a, b) = self.popc(m, st), self.popc(m, st)
        self.pushc(m, st, s64(a + c), s64(b + d))

    def do_S(self, m, ip, st):
        (c, d), (a, b) = self.popc(m, st), self.popc(m, st)
        self.pushc(m, st, s64(a - c), s64(b - d))

    def do_M(self, m, ip, st):
        (c, d), (a, b) = self.popc(m, st), self.popc(m, st)
        for x in (a * c, b * d, a * d, b * c):
            fit(x)
        self.pushc(m, st, fit(a * c - b * d), fit(a * d + b * c))

    def do_D(self, m, ip, st):
        (c, d), (a, b) = self.popc(m, st), self.popc(m, st)
        big = max(map(abs, (a, b, c, d)))
        n = c * c + d * d
        if n == 0:
            raise OutOfDomain('division by zero')
        if big > 1 << 31:
            raise OutOfDomain('large')
        for x in (a * c + b * d, b * c - a * d):
            # away from ties
            if (2 * x) % (2 * n) == n or big > 1 << 15 and abs((2 * x) % (2 * n) - n) * 1000 < n:
                raise OutOfDomain('the rounding of a tie is left to floating point')
        self.pushc(m, st, rdiv(a * c + b * d, n), rdiv(b * c - a * d, n))

    def do_O(self, m, ip, st):
        r, i = self.popc(m, st)
        m.write('%d ' % r if i == 0 else '%di ' % i if r == 0 else '%d%di ' % (r, i) if i < 0 else '%d+%di ' % (r, i))

    def do_V(self, m, ip, st):
        r, i = self.popc(m, st)
        if max(abs(r), abs(i)) > 1 << 48:
            raise OutOfDomain('large')
        n = r * r + i * i
        q = math.isqrt(4 * n)
        if n > 1 << 40 and abs((math.isqrt(n << 40) & 0xFFFFF) - (1 << 19)) < 1 << 18:
            raise OutOfDomain('near a tie')
        m.push(st, (q + 1) // 2)


@finger('FIXP')
class FIXP(Finger):
    do_A, do_O, do_X = BITW.do_A, BITW.do_O, BITW.do_X

    def real(self, m, st, f):
        n = m.pop(st)
        if abs(n) > 1 << 40:
            raise OutOfDomain('large')
        try:
            x = f(n / 10000.0) * 10000.0
        except (ValueError, OverflowError):
            raise OutOfDomain('not a number')
        if abs(x) > 1e17:
            raise OutOfDomain('large')
        # away from the middle between two results, where the last bit decides
        fr = abs(x) % 1
        if abs(fr - 0.5) < 1e-9 * max(1.0, abs(x)) * 8:
            raise OutOfDomain('rounding')
        m.push(st, int(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1))

    def do_B(self, m, ip, st):
        self.real(m, st, lambda n: math.acos(n) * 180.0 / math.pi)

    def do_C(self, m, ip, st):
        self.real(m, st, lambda n: math.cos(n * math.pi / 180.0))

    def do_I(self, m, ip, st):
        self.real(m, st, lambda n: math.sin(n * math.pi / 180.0))

    def do_J(self, m, ip, st):
        self.real(m, st, lambda n: math.asin(n) * 180.0 / math.pi)

    def do_T(self, m, ip, st):
        self.real(m, st, lambda n: math.tan(n * math.pi / 180.0))

    def do_U(self, m, ip, st):
        self.real(m, st, lambda n: math.atan(n) * 180.0 / math.pi)

    def do_N(self, m, ip, st):
        m.push(st, s64(-m.pop(st)))

    def do_V(self, m, ip, st):
        m.push(st, fit(abs(m.pop(st))))

    def do_S(self, m, ip, st):
        n = m.pop(st)
        m.push(st, (n > 0) - (n < 0))

    def do_P(self, m, ip, st):
        n = m.pop(st)
        if abs(n) > 1 << 45:
            raise OutOfDomain('large')
        m.push(st, int(n * math.pi))

    def do_Q(self, m, ip, st):
        n = m.pop(st)
        if not 0 <= n < 1 << 50:
            raise OutOfDomain('large')
        m.push(st, math.isqrt(n))

    def do_R(self, m, ip, st):
        b, a = m.pop(st), m.pop(st)
        if b < 0:
            if abs(a) < 2:
                raise OutOfDomain('power')
            m.push(st, 0)
            return
        if b > 64 or abs(a) ** b > 1 << 52:
            raise OutOfDomain('power')
        m.push(st, a ** b)

    def do_D(self, m, ip, st):
        n = m.pop(st)
        if n != 0:
            raise OutOfDomain('random')
        m.push(st, 0)


@finger('MODU')
class MODU(Finger):
    """A funge-lib file: each call is an IP of another universe."""

    def args(self, m, st):
        m.ids += 1
        a, b = m.pop(st), m.pop(st)
        if max(abs(a), abs(b)) > 1 << 62:
            raise OutOfDomain('large')
        return b, a

    def do_M(self, m, ip, st):
        b, a = self.args(m, st)
        if a and b and (b % a == 0 or abs(b) < abs(a)) and (b < 0) != (a < 0):
            raise OutOfDomain('where implementations differ')
        m.push(st, b % a if a else 0)

    def do_R(self, m, ip, st):
        b, a = self.args(m, st)
        m.push(st, math.copysign(1, b) > 0 and abs(b) % abs(a) or -(abs(b) % abs(a)) if a else 0)

    def do_U(self, m, ip, st):
        b, a = self.args(m, st)
        if a and b % abs(a) == 0:
            raise OutOfDomain('where implementations differ')
        m.push(st, b % abs(a) if a else 0)


def roman(n):
    out = 'M' * (n // 1000)
    for d, one, five, ten in ((n // 100 % 10, 'C', 'D', 'M'), (n // 10 % 10, 'X', 'L', 'C'), (n % 10, 'I', 'V', 'X')):
        out += ['', one, one * 2, one * 3, one + five, five, five + one, five + one * 2, five + one * 3, one + ten][d]
    return out


@finger('ROMA')
class ROMA(Finger):
    def do_P(self, m, ip, st):
        m.ids += 1
        n = m.pop(st)
        if n > 20000 or n == 0:
            raise OutOfDomain('large')
        if n < 0:
            raise OutOfDomain('negative')
        m.write(roman(n) + ' ')


for _c, _v in zip('IVXLCDM', (1, 5, 10, 50, 100, 500, 1000)):
    def _f(m, ip, inst, v=_v):
        m.ids += 1
        m.push(m.top(ip), v)
        return NONE
    ROMA.CODE[_c] = _f


@finger('ORTH')
class ORTH(Finger):
    do_A, do_O, do_E = BITW.do_A, BITW.do_O, BITW.do_X

    def xy(self, m, st):
        x, y = m.pop(st), m.pop(st)
        if m.dims < 2 and y:
            raise OutOfDomain('dimensions')
        return (x, y) + (0,) * (m.K - 2)

    def do_G(self, m, ip, st):
        m.push(st, m.f.get(self.xy(m, st)))

    def do_P(self, m, ip, st):
        p = self.xy(m, st)
        m.f.put(p, m.pop(st))

    def do_S(self, m, ip, st):
        m.write(m.popstr(st) + '\n')

    def do_V(self, m, ip, st):
        m.setdelta(ip, (m.pop(st),) + ip.delta[1:])

    def do_W(self, m, ip, st):
        if m.dims < 2:
            raise OutOfDomain('dimensions')
        m.setdelta(ip, (ip.delta[0], m.pop(st)) + ip.delta[2:])

    def do_X(self, m, ip, st):
        ip.pos = (near(m.pop(st)),) + ip.pos[1:]

    def do_Y(self, m, ip, st):
        if m.dims < 2:
            raise OutOfDomain('dimensions')
        ip.pos = (ip.pos[0], near(m.pop(st))) + ip.pos[2:]

    def do_Z(self, m, ip, st):
        if m.pop(st) == 0:
            m.next(ip)


def near(a):
    if abs(a) > 1 << 60:
        raise OutOfDomain('far away')
    return a


# -- floating point
import math, struct, ctypes, re
_libm = ctypes.CDLL('libm.so.6')
_libc = ctypes.CDLL('libc.so.6')


def _mf(name, n=1):
    d = getattr(_libm, name)
    d.restype = ctypes.c_double
    d.argtypes = [ctypes.c_double] * n
    f = getattr(_libm, name + 'f')
    f.restype = ctypes.c_float
    f.argtypes = [ctypes.c_float] * n
    return d, f


_libc.strtod.restype = ctypes.c_double
_libc.strtod.argtypes = [ctypes.c_char_p, ctypes.c_void_p]
MF = {n: _mf(n) for n in 'sin cos tan asin acos atan log log10 exp sqrt'.split()}
MF['pow'] = _mf('pow', 2)


def f32(x):
    return ctypes.c_float(x).value


def int_to_f32(n):
    """Correctly rounded, half to even."""
    s, a = (-1 if n < 0 else 1), abs(n)
    k = a.bit_length() - 24
    if k > 0:
        q, r = a >> k, a & ((1 << k) - 1)
        h = 1 << (k - 1)
        if r > h or (r == h and q & 1):
            q += 1
        a = q << k
    return float(s * a)


def snprintf(fmt, arg):
    if fmt is None:
        return None
    buf = ctypes.create_string_buffer(1024)
    n = _libc.snprintf(buf, ctypes.c_size_t(1024), fmt.encode('latin-1'), arg)
    if n > 1023:
        raise OutOfDomain('longer than the buffer')
    return None if n < 0 else buf.value.decode('latin-1')


class Floats(Finger):
    single = False

    def get(self, n):
        if self.single:
            return struct.unpack('<f', struct.pack('<I', n & 0xffffffff))[0]
        return struct.unpack('<d', struct.pack('<q', n))[0]

    def put(self, m, st, x):
        if x != x:
            raise OutOfDomain('not a number')    # which one is not defined
        if self.single:
            m.push(st, struct.unpack('<I', struct.pack('<f', f32(x)))[0])
        else:
            m.push(st, struct.unpack('<q', struct.pack('<d', x))[0])

    def pop(self, m, st):
        return self.get(m.pop(st))

    def fun(self, name, *a):
        return MF[name][self.single](*a)

    def two(self, m, st, f):
        b, a = self.pop(m, st), self.pop(m, st)
        try:
            x = f(a, b)
        except ZeroDivisionError:
            if a == 0 or a != a:
                raise OutOfDomain('not a number')
            x = math.copysign(math.inf, a) * math.copysign(1, b)
        except OverflowError:
            raise OutOfDomain('overflow')
        self.put(m, st, f32(x) if self.single else x)

    def do_A(self, m, ip, st):
        self.two(m, st, lambda a, b: a + b)

    def do_S(self, m, ip, st):
        self.two(m, st, lambda a, b: a - b)

    def do_M(self, m, ip, st):
        self.two(m, st, lambda a, b: a * b)

    def do_D(self, m, ip, st):
        self.two(m, st, lambda a, b: a / b)

    def do_Y(self, m, ip, st):
        self.two(m, st, lambda a, b: self.fun('pow', a, b))

    def do_F(self, m, ip, st):
        n = m.pop(st)
        self.put(m, st, int_to_f32(n) if self.single else float(n))

    def do_I(self, m, ip, st):
        x = self.pop(m, st)
        if not abs(x) < 9.2e18:
            raise OutOfDomain('large')
        m.push(st, int(x))

    def do_N(self, m, ip, st):
        self.put(m, st, -self.pop(m, st))

    def do_V(self, m, ip, st):
        self.put(m, st, abs(self.pop(m, st)))

    def do_P(self, m, ip, st):
        x = self.pop(m, st)
        if x != x:
            raise OutOfDomain('not a number')
        m.write('%.6f ' % x)

    def do_R(self, m, ip, st):
        s = m.popstr(st)
        x = _libc.strtod(s.encode('latin-1'), None)
        self.put(m, st, f32(x) if self.single else x)


def _one(letter, name):
    def f(m, ip, inst):
        st = m.top(ip)
        inst.put(m, st, inst.fun(name, inst.pop(m, st)))
        return NONE
    return letter, f


ONES = [_one(*p) for p in zip('BCEGHKLQTX', ('sin', 'cos', 'asin', 'atan', 'acos', 'log', 'log10', 'sqrt', 'tan', 'exp'))]


@finger('FPDP')
class FPDP(Floats):
    pass


@finger('FPSP')
class FPSP(Floats):
    single = True


for _cls in (FPDP, FPSP):
    for _l, _f in ONES:
        _cls.CODE[_l] = _f

FMT = re.compile(r'(?:[^%]|%%)*(?:%([-+ #0]*)([0-9]*)(\.[0-9]+)?(hh|h|ll|l)?([a-zA-Z])(?:[^%]|%%)*)?', re.S)


ANY = re.compile(r'%(?:%|[-+ #0]*[0-9]*(?:\.[0-9]*)?(hh|h|ll|l)?(.|$))', re.S)


def fmt_ok(fmt, kinds):
    """The format, or None if it asks for something else than one value of the kinds."""
    x = FMT.fullmatch(fmt)
    found = [y.group(2) for y in ANY.finditer(fmt) if y.group(2) is not None]
    if len(found) > 1 and all(found) or any(not c or c in 'n*sp' and c not in kinds for c in found) or any(c in 'dxoucfeg' and not any(k[-1] == c for k in kinds + ('u', 'c') * ('ld' in kinds)) for c in found):
        return None
    if not x or '\0' in fmt:
        raise OutOfDomain('format')
    if x.group(5):
        if (x.group(4) or '') + x.group(5) not in kinds or int(x.group(2) or 0) > 1023 or len(x.group(3) or '') > 4:
            raise OutOfDomain('format')
    return fmt


@finger('FPRT')
class FPRT(Finger):
    def done(self, m, st, s):
        if s is None:
            return UNSPEC
        m.pushstr(st, s)

    def do_D(self, m, ip, st):
        x = struct.unpack('<d', struct.pack('<q', m.pop(st)))[0]
        fmt = fmt_ok(m.popstr(st), ('f', 'e', 'g', 'E', 'G', 'F', 'a'))
        return self.done(m, st, snprintf(fmt, ctypes.c_double(x)))

    def do_F(self, m, ip, st):
        x = struct.unpack('<f', struct.pack('<I', m.pop(st) & 0xffffffff))[0]
        fmt = fmt_ok(m.popstr(st), ('f', 'e', 'g', 'E', 'G', 'F', 'a'))
        return self.done(m, st, snprintf(fmt, ctypes.c_double(x)))

    def do_I(self, m, ip, st):
        n = m.pop(st)
        fmt = fmt_ok(m.popstr(st), ('ld', 'lx', 'lo', 'lu', 'lld', 'llx', 'li', 'lX', 'd', 'x', 'c'))
        return self.done(m, st, snprintf(fmt, ctypes.c_int64(n)))

    def do_L(self, m, ip, st):
        l, h = m.pop(st), m.pop(st)
        fmt = fmt_ok(m.popstr(st), ('ld', 'lx', 'lo', 'lu', 'lld', 'llx', 'li', 'lX'))
        return self.done(m, st, snprintf(fmt, ctypes.c_int64(s64((h << 32) | (l & 0xffffffff)))))

    def do_S(self, m, ip, st):
        s = m.popstr(st)
        fmt = fmt_ok(m.popstr(st), ('s',))
        if '\0' in s:
            raise OutOfDomain('NUL')
        return self.done(m, st, snprintf(fmt, ctypes.c_char_p(s.encode('latin-1'))))


# -- strings
def char(c):
    return c - 256 if c > 127 else c


@finger('STRN')
class STRN(Finger):
    def do_A(self, m, ip, st):
        a, b = m.popstr(st), m.popstr(st)
        m.pushstr(st, a + b)

    def do_C(self, m, ip, st):
        # only the sign is defined
        a, b = m.popstr(st), m.popstr(st)
        if a == b:
            m.push(st, 0)
        else:
            from .model98 import Sign
            m.push(st, Sign(6666666666666600000 if a > b else -6666666666666600000))
            m.count('compare')

    def do_D(self, m, ip, st):
        m.write(m.popstr(st))

    def do_F(self, m, ip, st):
        a, b = m.popstr(st), m.popstr(st)
        n = a.find(b)
        if n >= 0:
            m.pushstr(st, a[n:])
            m.count('found')
        else:
            m.push(st, 0)

    def do_G(self, m, ip, st):
        p = m.add(m.popvec(st), ip.storage)
        out = []
        while True:
            v = m.f.get(p)
            if v == 0:
                break
            out.append(chr(v & 255))
            if len(out) > m.lim:
                raise OutOfDomain('long string')
            p = (p[0] + 1,) + p[1:]
        m.pushstr(st, ''.join(out))

    def do_I(self, m, ip, st):
        m.pushstr(st, m.cin_line())
        m.count('line')

    def do_L(self, m, ip, st):
        n = m.pop(st)
        if n < 0:
            return UNSPEC
        m.pushstr(st, m.popstr(st)[:n])

    def do_M(self, m, ip, st):
        n, s = m.pop(st), m.pop(st)
        if n < 0 or s < 0:
            return UNSPEC
        t = m.popstr(st)
        if s > len(t):
            return UNSPEC
        m.pushstr(st, t[s:s + n])

    def do_N(self, m, ip, st):
        s = m.popstr(st)
        m.pushstr(st, s)
        m.push(st, len(s))

    def do_P(self, m, ip, st):
        p = m.add(m.popvec(st), ip.storage)
        s = m.popstr(st)
        for ch in s:
            m.f.put(p, char(ord(ch)))
            p = (p[0] + 1,) + p[1:]
        m.f.put(p, 0)

    def do_R(self, m, ip, st):
        n = m.pop(st)
        if n < 0:
            return UNSPEC
        s = m.popstr(st)
        n = min(n, len(s))
        m.pushstr(st, s[len(s) - n:])

    def do_S(self, m, ip, st):
        n = m.pop(st)
        n - 1    # a mark cannot
        m.pushstr(st, str(n))

    def do_V(self, m, ip, st):
        x = re.match(r'[ \t\n\v\f\r]*([-+]?[0-9]+)', m.popstr(st).split('\0')[0])
        n = int(x.group(1)) if x else 0
        if not -TOP <= n < TOP:
            raise OutOfDomain('large')
        m.push(st, n)


@finger('JSTR')
class JSTR(Finger):
    def args(self, m, ip, st):
        n = m.pop(st)
        va = m.popvec(st)
        vd = m.popvec(st)
        if n > 500:
            raise OutOfDomain('count')
        return n, m.add(va, ip.storage), vd

    def do_G(self, m, ip, st):
        n, p, d = self.args(m, ip, st)
        m.push(st, 0)
        for _ in range(n):
            m.push(st, m.f.get(p))
            p = m.add(p, d)

    def do_P(self, m, ip, st):
        n, p, d = self.args(m, ip, st)
        for _ in range(n):
            m.f.put(p, m.pop(st))
            p = m.add(p, d)


@finger('REFC')
class REFC(Finger):
    """The numbers it gives are not known: a reference is a mark that can be moved and stored."""

    def __init__(self, m, ip):
        super().__init__(m, ip)
        self.map = m.__dict__.setdefault('references', {})

    def do_R(self, m, ip, st):
        v = m.popvec(st)
        from .model98 import Mark
        r = Mark(8888888888888800000 + len(self.map))
        self.map[r] = v
        m.count('reference')
        m.push(st, r)

    def do_D(self, m, ip, st):
        r = m.pop(st)
        v = self.map.get(r)
        if v is None:
            raise OutOfDomain('no reference')
        m.count('dereference')
        m.pushvec(st, v)


D32 = '0123456789ABCDEFGHJKMNPQRSTVWXYZ'
D36 = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
D58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
D64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
D85 = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~'


def digits_of(b):
    return D32[:b] if b <= 32 else {36: D36, 58: D58, 64: D64, 85: D85}.get(b)


@finger('BASE')
class BASE(Finger):
    def out(self, m, n, b):
        if not 0 <= b < 1 << 31:
            raise OutOfDomain('base')
        if b < 2:
            if n > m.lim:
                raise OutOfDomain('large')
            m.write('0' * max(n, 0) + ' ')
            return
        d = []
        a = abs(n)
        while True:
            a, r = divmod(a, b)
            d.append(r)
            if not a:
                break
        t = digits_of(b)
        if t:
            s = ''.join(t[r] for r in reversed(d))
        else:
            s = ','.join(str(r) for r in reversed(d))
        m.write(('-' if n < 0 else '') + s + ' ')

    def do_B(self, m, ip, st):
        self.out(m, m.pop(st), 2)

    def do_H(self, m, ip, st):
        self.out(m, m.pop(st), 16)

    def do_O(self, m, ip, st):
        self.out(m, m.pop(st), 8)

    def do_N(self, m, ip, st):
        b, a = m.pop(st), m.pop(st)
        self.out(m, a, b)

    def do_I(self, m, ip, st):
        b = m.pop(st)
        if not 0 <= b < 1 << 31:
            raise OutOfDomain('base')
        w = m.cin_word()
        if b < 2:
            m.push(st, len(w))
            return
        t = digits_of(b)
        n = 0
        for ch in w if t else '':
            if b <= 36:
                ch = ch.upper() if ch < '\x80' else ch
            k = t.find(ch)
            if k < 0:
                break
            n = n * b + k
            if n >= TOP:
                raise OutOfDomain('large')
        m.push(st, n)


# -- stacks
@finger('FRTH')
class FRTH(Finger):
    def do_D(self, m, ip, st):
        m.push(st, len(st.s))

    def do_L(self, m, ip, st):
        u = m.pop(st)
        c = abs(u)
        if c > m.lim:
            raise OutOfDomain('count')
        p = [m.pop(st) for _ in range(c + 1)]
        if u < 0:
            m.push(st, p[0])
            for i in range(c, 0, -1):
                m.push(st, p[i])
        else:
            for i in range(c - 1, -1, -1):
                m.push(st, p[i])
            m.push(st, p[c])

    def do_O(self, m, ip, st):
        b, a = m.pop(st), m.pop(st)
        for x in (a, b, a):
            m.push(st, x)

    def do_P(self, m, ip, st):
        u = m.pop(st)
        if u < 0:
            return UNSPEC
        m.push(st, m.peek(st, u + 1))

    def do_R(self, m, ip, st):
        c, b, a = m.pop(st), m.pop(st), m.pop(st)
        for x in (b, c, a):
            m.push(st, x)


@finger('TOYS')
class TOYS(Finger):
    def args(self, m, st, n=3):
        return [m.popvec(st) for _ in range(n)]

    def area(self, m, size):
        """The offsets in an area, x first, from the corner at zero. Sizes may be negative."""
        n = 1
        for s in size[:m.dims]:
            n *= abs(s)
        if n > 600:
            raise OutOfDomain('area')
        if n == 0:
            return []
        out = [()]
        for s in size[:m.dims]:
            r = range(0, s) if s > 0 else range(0, s, -1)
            out = [o + (k,) for o in out for k in r]
        # the first coordinate is the fastest
        out.sort(key=lambda o: tuple(abs(a) for a in reversed(o)))
        return [o + (0,) * (m.K - len(o)) for o in out]

    def copy(self, m, src, size, dest, low, move):
        a = self.area(m, size)
        if not low:
            a = a[::-1]
        for o in a:
            v = m.f.get(m.add(src, o))
            m.f.put(m.add(dest, o), v)
            if move:
                m.f.put(m.add(src, o), 32)

    def four(self, m, st, low, move):
        dest, size, src = self.args(m, st)
        self.copy(m, src, size, dest, low, move)

    def do_C(self, m, ip, st):
        self.four(m, st, True, False)

    def do_K(self, m, ip, st):
        self.four(m, st, False, False)

    def do_M(self, m, ip, st):
        self.four(m, st, True, True)

    def do_V(self, m, ip, st):
        self.four(m, st, False, True)

    def do_A(self, m, ip, st):
        n, a = m.pop(st), m.pop(st)
        if n > 300:
            raise OutOfDomain('count')
        for _ in range(n):
            m.push(st, a)

    def do_B(self, m, ip, st):
        b, a = m.pop(st), m.pop(st)
        m.push(st, s64(a + b))
        m.push(st, s64(a - b))

    def do_D(self, m, ip, st):
        m.push(st, s64(m.pop(st) - 1))

    def do_I(self, m, ip, st):
        m.push(st, s64(m.pop(st) + 1))

    def do_N(self, m, ip, st):
        m.push(st, int(not m.pop(st)))

    def do_E(self, m, ip, st):
        n = 0
        while st.s:
            n += m.pop(st)
        m.push(st, s64(n))

    def do_P(self, m, ip, st):
        n = 1
        while st.s:
            n = s64(n * m.pop(st))
        m.push(st, n)

    def do_F(self, m, ip, st):
        dest, size = self.args(m, st, 2)
        for o in self.area(m, size):
            m.f.put(m.add(dest, o), m.pop(st))

    def do_G(self, m, ip, st):
        src, size = self.args(m, st, 2)
        for o in reversed(self.area(m, size)):
            m.push(st, m.f.get(m.add(src, o)))

    def do_S(self, m, ip, st):
        dest, size = self.args(m, st, 2)
        v = m.pop(st)
        for o in self.area(m, size):
            m.f.put(m.add(dest, o), v)

    def do_H(self, m, ip, st):
        b, a = m.pop(st), m.pop(st)
        if abs(b) > 63:
            raise OutOfDomain('shift')
        m.push(st, s64(a << b) if b > 0 else a >> -b)

    def line(self, m, ip, n, d):
        if n == 0:
            return
        if m.dims < 2 or any(ip.pos[2:]) or abs(n) > 1 << 40:
            raise OutOfDomain('lines in other planes')
        if m.f.lazy is not None:
            m.f.lazy.layout(m, ip)
            m.f.lazy.freeze()
        size = [1] * m.dims
        size[d] = m.f.maxs[d] - m.f.mins[d] + 1
        src = [ip.pos[0], ip.pos[1]]
        src[d] = m.f.mins[d]
        dest = list(src)
        dest[d] += n
        z = (0,) * (m.K - 2)
        self.copy(m, tuple(src) + z, tuple(size) + (0,) * (m.K - m.dims), tuple(dest) + z, n < 0, True)
        m.count('line moved')

    def do_J(self, m, ip, st):
        self.line(m, ip, m.pop(st), 1)

    def do_O(self, m, ip, st):
        self.line(m, ip, m.pop(st), 0)

    def turned(self, ip, s):
        d = ip.delta
        return ((d[1], -d[0]) if s else (-d[1], d[0])) + d[2:]

    def do_L(self, m, ip, st):
        if m.dims < 2:
            raise OutOfDomain('dimensions')
        m.push(st, m.f.get(m.add(ip.pos, self.turned(ip, True))))

    def do_R(self, m, ip, st):
        if m.dims < 2:
            raise OutOfDomain('dimensions')
        m.push(st, m.f.get(m.add(ip.pos, self.turned(ip, False))))

    def do_Q(self, m, ip, st):
        m.f.put(tuple(a - b for a, b in zip(ip.pos, ip.delta)), m.pop(st))

    def do_T(self, m, ip, st):
        n, b = m.pop(st), m.pop(st)
        if not 0 <= n < m.dims:
            return UNSPEC
        v = [0] * m.K
        v[n] = 1 if b == 0 else -1
        m.setdelta(ip, tuple(v))

    def do_U(self, m, ip, st):
        raise OutOfDomain('random')

    def do_W(self, m, ip, st):
        v = m.popvec(st)
        value = m.pop(st)
        c = m.f.get(v)
        if c < value:
            m.push(st, value)
            m.pushvec(st, v)
            m.count('blocked')
            return BLOCK
        if c > value:
            m.reflect(ip)

    def step(self, m, ip, d):
        if m.dims <= d:
            return UNSPEC
        p = list(ip.pos)
        p[d] += 1
        ip.pos = tuple(p)

    def do_X(self, m, ip, st):
        return self.step(m, ip, 0)

    def do_Y(self, m, ip, st):
        return self.step(m, ip, 1)

    def do_Z(self, m, ip, st):
        return self.step(m, ip, 2)


# -- movement
def _need(m, d):
    if m.K < d:
        raise OutOfDomain('dimensions')


@finger('NFUN')
class NFUN(Finger):
    def go(self, m, ip, d, s):
        _need(m, d + 1)
        v = [0] * m.K
        v[d] = s
        m.setdelta(ip, tuple(v))
        if m.dims < d + 1:
            m.dims = d + 1
            m.count('new dimension')

    def do_A(self, m, ip, st):
        self.go(m, ip, 3, -1)

    def do_C(self, m, ip, st):
        self.go(m, ip, 5, -1)

    def do_D(self, m, ip, st):
        self.go(m, ip, 5, 1)

    def do_H(self, m, ip, st):
        self.go(m, ip, 4, -1 if m.cfg.inverthl else 1)

    def do_L(self, m, ip, st):
        self.go(m, ip, 4, 1 if m.cfg.inverthl else -1)

    def do_I(self, m, ip, st):
        self.go(m, ip, 3, 1 if m.pop(st) == 0 else -1)

    def do_M(self, m, ip, st):
        self.go(m, ip, 4, 1 if m.pop(st) == 0 else -1)

    def do_R(self, m, ip, st):
        self.go(m, ip, 5, 1 if m.pop(st) == 0 else -1)

    def do_V(self, m, ip, st):
        self.go(m, ip, 3, 1)

    def do_X(self, m, ip, st):
        n = m.pop(st)
        if n < 0:
            return UNSPEC
        b = m.pop(st)
        if n >= m.K:
            raise OutOfDomain('dimensions')
        self.go(m, ip, n, 1 if b == 0 else -1)

    def do_Y(self, m, ip, st):
        n = m.pop(st)
        if n < 0:
            return UNSPEC
        if n >= m.K:
            raise OutOfDomain('dimensions')
        self.go(m, ip, n, -1)

    def do_Z(self, m, ip, st):
        n = m.pop(st)
        if n < 0:
            return UNSPEC
        if n >= m.K:
            raise OutOfDomain('dimensions')
        self.go(m, ip, n, 1)


@finger('SUBR')
class SUBR(Finger):
    def __init__(self, m, ip):
        super().__init__(m, ip)
        self.offset = False

    def do_A(self, m, ip, st):
        self.offset = False

    def do_O(self, m, ip, st):
        self.offset = True
        self.touched = True

    def target(self, m, ip, st):
        v = m.popvec(st)
        if self.offset:
            v = m.add(v, ip.pos)
        for a in v:
            near(a)
        return v

    def do_C(self, m, ip, st):
        n = m.pop(st)
        if n < 0:
            return UNSPEC
        if n > m.lim:
            raise OutOfDomain('count')
        v = m.popvec(st)
        p = [m.pop(st) for _ in range(n)]
        m.pushvec(st, ip.pos)
        m.pushvec(st, ip.delta)
        for x in reversed(p):
            m.push(st, x)
        if self.offset:
            v = m.add(v, ip.pos)
        for a in v:
            near(a)
        ip.pos = (v[0] - 1,) + v[1:]
        m.setdelta(ip, (1,) + (0,) * (m.K - 1))
        m.count('call')

    def do_J(self, m, ip, st):
        ip.pos = self.target(m, ip, st)
        m.setdelta(ip, (1,) + (0,) * (m.K - 1))
        m.count('goto')

    def do_R(self, m, ip, st):
        n = m.pop(st)
        if n < 0:
            return UNSPEC
        if n > m.lim:
            raise OutOfDomain('count')
        p = [m.pop(st) for _ in range(n)]
        vd = m.popvec(st)
        va = m.popvec(st)
        for x in reversed(p):
            m.push(st, x)
        for a in va:
            near(a)
        ip.pos = va
        m.setdelta(ip, vd)
        m.count('return')


@finger('MODE')
class MODE(Finger):
    def do_H(self, m, ip, st):
        from .model98 import HOVER
        m.mode ^= HOVER
        m.count('hover')

    def do_I(self, m, ip, st):
        from .model98 import INVERT
        m.mode ^= INVERT
        m.count('invert')

    def do_Q(self, m, ip, st):
        from .model98 import QUEUE
        m.mode ^= QUEUE
        m.count('queue')

    def do_S(self, m, ip, st):
        from .model98 import SWITCH
        m.mode ^= SWITCH
        m.count('switch')


@finger('IIPC')
class IIPC(Finger):
    def __init__(self, m, ip):
        super().__init__(m, ip)
        self.dormant = False
        self.age = 0

    def other(self, m, n):
        for r in m.runners:
            if r.id == n and not r.stopped:
                return r
        return None

    def do_A(self, m, ip, st):
        if ip.parent is None:
            return UNSPEC
        m.push(st, ip.parent)

    def do_I(self, m, ip, st):
        m.push(st, ip.id)

    def do_D(self, m, ip, st):
        if self.dormant:
            if st.ops != self.age:
                self.dormant = False
                m.count('woken')
                return NONE
            m.count('asleep')
            return BLOCK
        self.age = st.ops
        self.dormant = True
        m.count('asleep')
        return BLOCK

    def do_G(self, m, ip, st):
        o = self.other(m, m.pop(st))
        if o is None:
            return UNSPEC
        m.count('taken')
        m.push(st, m.pop(m.top(o)))

    def do_L(self, m, ip, st):
        o = self.other(m, m.pop(st))
        if o is None:
            return UNSPEC
        m.count('looked')
        m.push(st, m.peek(m.top(o), 1))

    def do_P(self, m, ip, st):
        n = m.pop(st)
        v = m.pop(st)
        o = self.other(m, n)
        if o is None:
            return UNSPEC
        m.count('given')
        m.push(m.top(o), v)


@finger('FING')
class FING(Finger):
    """Operates on the top of the meanings of letters."""

    def letter(self, m, st):
        a = m.pop(st)
        if 0 <= a <= 25:
            a += 65
        return a if 65 <= a <= 90 else None

    def pop(self, ip, a):
        l = ip.sem.get(a)
        return l.pop() if l else None

    def push(self, ip, a, s):
        ip.sem.setdefault(a, []).append(s or (_fing_reflect, None, False))

    def do_X(self, m, ip, st):
        a = self.letter(m, st)
        if a is None:
            return UNSPEC
        b = self.letter(m, st)
        if b is None:
            return UNSPEC
        ip.dirty = True
        x = self.pop(ip, a)
        y = self.pop(ip, b)
        self.push(ip, a, y)
        self.push(ip, b, x)
        m.count('swapped')

    def do_Y(self, m, ip, st):
        a = self.letter(m, st)
        if a is None:
            return UNSPEC
        ip.dirty = True
        self.pop(ip, a)
        m.count('dropped')

    def do_Z(self, m, ip, st):
        d = self.letter(m, st)
        if d is None:
            return UNSPEC
        s = self.letter(m, st)
        if s is None:
            return UNSPEC
        ip.dirty = True
        l = ip.sem.get(s)
        self.push(ip, d, l[-1] if l else None)
        m.count('copied')


def _fing_reflect(m, ip, inst):
    m.reflect(ip)
    return NONE


@finger('NULL')
class NULL(Finger):
    pass


for _i in range(26):
    def _f(m, ip, inst):
        m.ids += 1
        m.reflect(ip)
        return NONE
    NULL.CODE[chr(65 + _i)] = _f


# -- instructions of ><>
@finger('FISH')
class FISH(Finger):
    MOVES = 'OU'

    def __init__(self, m, ip):
        Finger.__init__(self, m, ip)
        self.up = True
        self.cache = (1,) + (0,) * (m.K - 1)
        ip.observers.append(self.turned)

    def turned(self, v):
        if v[0] and not v[1]:
            self.cache = v
            if v != (1,) + (0,) * (self.m.K - 1):
                self.touched = True

    def do_C(self, m, ip, st):
        if not m.pop(st):
            m.next(ip)

    def do_D(self, m, ip, st):
        if ip.select >= len(ip.ss) - 1:
            return UNSPEC
        ip.select += 1

    def do_I(self, m, ip, st):
        if not ip.select:
            return UNSPEC
        ip.select -= 1

    def do_F(self, m, ip, st):
        self.touched = True
        if ip.delta[1] == 0:
            m.setdelta(ip, (0, 1 if self.up else -1) + (0,) * (m.K - 2))
            self.up = not self.up
        else:
            m.setdelta(ip, self.cache)

    def do_H(self, m, ip, st):
        d = ip.delta
        m.setdelta(ip, (d[0], -d[1]) + d[2:])

    def do_V(self, m, ip, st):
        d = ip.delta
        m.setdelta(ip, (-d[0], d[1]) + d[2:])

    def do_M(self, m, ip, st):
        d = ip.delta
        m.setdelta(ip, (-d[1], -d[0]) + d[2:])

    def do_N(self, m, ip, st):
        d = ip.delta
        m.setdelta(ip, (d[1], d[0]) + d[2:])

    def do_L(self, m, ip, st):
        _plain(m)
        st.s[:] = st.s[1:] + st.s[:1]

    def do_R(self, m, ip, st):
        _plain(m)
        st.s[:] = st.s[-1:] + st.s[:-1]

    def do_S(self, m, ip, st):
        _plain(m)
        st.s.reverse()

    def do_T(self, m, ip, st):
        x, y, z = m.pop(st), m.pop(st), m.pop(st)
        m.push(st, x)
        m.push(st, z)
        m.push(st, y)

    def do_U(self, m, ip, st):
        from .model98 import DIVE
        m.mode |= DIVE

    def do_O(self, m, ip, st):
        from .model98 import DIVE
        m.mode &= ~DIVE


def _plain(m):
    if m.mode & 0xC000:
        raise OutOfDomain('other modes')


# -- control of the debugger
@finger('DBUG')
class DBUG(Finger):
    def do_A(self, m, ip, st):
        v = m.popvec(st)
        if hasattr(m, 'threads'):
            m.breakpoints.add(v)

    def do_B(self, m, ip, st):
        if hasattr(m, 'threads'):
            m.swbreak(ip)

    def do_D(self, m, ip, st):
        if hasattr(m, 'threads'):
            m.debugging = False

    def do_E(self, m, ip, st):
        if hasattr(m, 'threads'):
            m.debugging = True

    def do_W(self, m, ip, st):
        v = m.popvec(st)
        if hasattr(m, 'threads'):
            m.watchpoints.add(v)
