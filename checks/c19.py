from lib.fpgen import *


def unit(ip, D):
    return sum(map(abs, ip.delta)) == 1 and not any(ip.delta[D:])


def one(src, n, f):
    """The arguments of X, Y or Z for a move along n, mostly forward along the first."""
    if f != 'X':
        return num(n)
    return num((src.n(8) == 7) if n == 0 else src.n(2)) + num(n)


def high(lz, m, ip):
    """Move along a dimension by number."""
    src = lz.src
    ok = [d for d in range(m.dims) if m.f.maxs[d] > m.f.mins[d] and d < len(lz.box)]
    n = src.pick(ok)
    f = src.pick('XYZ')
    if n == 0 and f == 'Y' and src.n(4):
        f = 'Z'
    return one(src, n, f) + f


def beyond(lz, m, ip):
    """Into a dimension that is new (or one cell wide): the same instruction meets the IP again and takes the next number."""
    src = lz.src
    f = src.pick('XZXZY')
    n = src.int(min(len(lz.box), m.K - 1), m.K - 1)
    k = [0 if f != 'Y' or m.dims < 2 else 1]
    if src.n(3) == 0:
        k.append(src.int(min(len(lz.box), m.K - 1), m.K - 1))
    k.append(n)
    return ''.join(one(src, a, f) for a in k) + f


def hop(lz, m, ip):
    """Something to meet in the other dimension."""
    src = lz.src
    D = m.dims
    if D < 4 or not unit(ip, D):
        return high(lz, m, ip)
    f = src.pick('YZ')
    d = src.int(3, D - 1)
    c = src.pick('0011r2><zv9')
    for guess in range(12, 80):
        p = [a + (guess - 1) * b for a, b in zip(ip.pos[:D], ip.delta[:D])]
        p[d] += 1 if f == 'Z' else -1
        s = num(ord(c)) + vec([a - b for a, b in zip(p, ip.storage)]) + 'p' + num(src.n(2))
        s = s + 'z' * (guess - len(s) - 2) + num(d) + f
        if len(s) == guess:
            return s
    return '1'


def named(lz, m, ip):
    src = lz.src
    if len(lz.box) < 4 and len(m.runners) < 2:
        return high(lz, m, ip) if src.n(3) else 't'
    f = src.pick('AVI')
    if len(m.runners) > 1 and src.n(2):
        f = src.pick('HLMCDR')
    return (num(src.n(2)) if f in 'IMR' and src.n(3) else '') + f


def lettered(lz, m, ip):
    """A letter that goes into a dimension of one cell, where an x waits that comes back."""
    src = lz.src
    D = m.dims
    if D < 6:
        return '05Z'
    if not unit(ip, D) or len(m.runners) > 1:
        return '1'
    f = src.pick('AVIHLMCDR')
    d = {'A': 3, 'V': 3, 'I': 3, 'H': 4, 'L': 4, 'M': 4}.get(f, 5)
    b = src.n(2) if f in 'IMR' else None
    sign = {'A': -1, 'V': 1, 'H': 1, 'L': -1, 'C': -1, 'D': 1}.get(f, 1 if b == 0 else -1)
    if m.cfg.inverthl and f in 'HL':
        sign = -sign
    if len(lz.box) > d:
        return f if b is None else num(b) + f
    back = list(ip.delta[:D])
    back[d] = -sign
    tail = vec(back) + ('' if b is None else num(b)) + f
    for guess in range(12, 90):
        p = [a + guess * c for a, c in zip(ip.pos[:D], ip.delta[:D])]
        p[d] += sign
        s = num(ord('x')) + vec([a - c for a, c in zip(p, ip.storage)]) + 'p'
        s += 'z' * (guess + 1 - len(s) - len(tail)) + tail
        if len(s) == guess + 1:
            break
    else:
        return '1'
    ch = '>' if ip.delta[0] > 0 else '<' if ip.delta[0] < 0 else 'v' if ip.delta[1] > 0 else '^' if ip.delta[1] < 0 else None
    return s + ch + src.pick(['', '7', '.']) if ch else '1'


def help_(lz, m, ip):
    """Free an IP that is caught in a dimension of one cell."""
    src = lz.src
    for o in m.runners:
        if o is not ip and any(o.delta[2:]):
            p = m.add(o.pos, o.delta)
            q = [a - b for a, b in zip(p[:m.dims], ip.storage)]
            return num(ord(src.pick('><^v@rz'))) + vec(q) + 'p'
    return 't' if len(m.runners) < 3 and src.n(3) == 0 else '1'


def target(lz, m, ip, offset=False, at=None):
    src = lz.src
    for _ in range(8):
        v = [src.int(0, lz.box[d] - 1) if d < len(lz.box) else 0 for d in range(m.dims)]
        z = [0] * (m.K - m.dims)
        if v[0] + 15 < lz.box[0] and not any(tuple([v[0] + i] + v[1:] + z) in lz.known for i in range(15)):
            break
    if offset:
        v = [a - b for a, b in zip(v, at)]
    return v


def sub(m, ip):
    return ip.avail.get(fpid('SUBR'))


def jump(lz, m, ip):
    src = lz.src
    s = sub(m, ip)
    off = s is not None and s.offset
    f = src.pick('JCCC')
    pre, post = '', f
    if f == 'C':
        n = src.weighted([(3, 0), (2, 1), (2, 2), (1, 5)])
        pre = ''.join(num(src.int(0, 20)) for _ in range(n)) if src.n(3) else ''
        post = num(n) + f
    if not off:
        return pre + vec(target(lz, m, ip)) + post
    if not unit(ip, m.dims):
        return '1'
    # relative: the length of the code matters; near enough is good enough
    v = target(lz, m, ip)
    L = len(pre) + 3 * m.dims
    at = [a + L * b for a, b in zip(ip.pos[:m.dims], ip.delta[:m.dims])]
    v = [a - b for a, b in zip(v, at)]
    return pre + vec(v) + post


def back(lz, m, ip):
    src = lz.src
    st = m.top(ip).s
    n = src.weighted([(4, 0), (3, 1), (2, 2), (1, 3)])
    D = m.dims
    for k in (n, 0, 1, 2):
        e = len(st) - k
        if e >= 2 * D and any(st[e - D:e]) and all(abs(a) < 200 for a in st[e - 2 * D:e]):
            return num(k) + 'R'
    # make one up
    d = [src.int(-1, 1) for _ in range(D)]
    if not any(d) or src.n(2):
        d = [1] + [0] * (D - 1)
    return vec(target(lz, m, ip)) + vec(d) + num(7) * n + num(n) + 'R'


def offset(lz, m, ip):
    return lz.src.pick('OOA')


def put(lz, m, ip):
    v = vec([a - b for a, b in zip(small_vec(lz, m), ip.storage)])
    return num(lz.src.pick([1, 65, 1 << 33, 32])) + v + 'p' + (v + 'g.' if lz.src.n(2) else '')


def hl(lz, m, ip):
    return lz.src.pick('hl') if m.dims > 2 else '1'


def size(lz, m, ip):
    return '7y.' if lz.src.n(2) else num(10 + 3 * m.dims + lz.src.n(2 * m.dims)) + 'y.'


OPS = {'NFUN': [(6, high), (4, beyond), (4, hop), (4, named), (4, lettered), (2, help_), (2, size), (2, put), (1, op('', 'X', raw=0)), (1, lambda lz, m, ip: '01-' + lz.src.pick('XYZ'))],
       'SUBR': [(7, jump), (5, back), (2, offset), (1, lambda lz, m, ip: lz.src.pick(['01-', '02-', '09-', '0ff*-', '01-']) + lz.src.pick('CR'))]}


class P(FpProp):
    id = 'C19'
    rule = ('Programs in 1 to 4 dimensions that load NFUN or SUBR (or both): moves along each dimension by number and by letter, into new dimensions and back, cells stored '
            'and fetched there, -finvert-hl; calls with arguments, jumps, absolute and relative, and returns, also from other IPs; everything compared with a '
            'model. Non-trivial: an instruction of a fingerprint ran.')
    quick = 9000
    thorough = 120000
    names = [(3, 'NFUN'), (2, 'SUBR')]
    ops = OPS
    base = [(3, I.show), (2, I.digit), (1, I.shuffle), (1, I.direction3), (1, hl), (1, I.begin)]
    dims = ((4, 2), (2, 3), (4, 4), (1, 1))
    box = {1: (290,), 2: (200, 4), 3: (140, 4, 2), 4: (120, 3, 2, 2)}
    K = 7

    def gen(self, src):
        self.inv = src.n(3) == 0
        return self.watched(src) if src.n(16) == 15 else super().gen(src)

    def watched(self, src):
        """A child goes off into a dimension by a letter, which nobody has used before; its parent looks at what has become of the space."""
        dims = src.pick([1, 2, 2, 3, 4])
        f = src.pick('AVIHLMCDRXYZ')
        b = src.n(2)
        if f in 'XYZ':
            d = src.int(max(dims, 2), 6)
            pre = num(b) + num(d)
        else:
            d = {'A': 3, 'V': 3, 'I': 3, 'H': 4, 'L': 4, 'M': 4}.get(f, 5)
            pre = num(b)
        n = max(dims, d + 1)
        s = src.pick(['', '3', '45']) + pre
        cfg = self.config(src, dims)
        by = src.n(2)
        args = ['-fno-execute', '-fno-filesystem'] + self.stdarg(dims) + (['-lNFUN'] if by else [])
        if by:
            cfg.fingerprints = [fpid('NFUN')]
        else:
            s = loadcode('NFUN') + '$$' + s
        s += '#' + f
        x = len(s) - 1
        s += 't' + 'z' * src.int(0, 4)
        up = src.pick([1, 1, -1])
        for _ in range(src.int(1, 6)):
            k = src.n(6)
            v = [0] * n
            v[src.n(n)] = src.pick([1, -1, 2, 5])
            if k == 0:
                s += '7y.'
            elif k == 1:
                s += num(10 + 3 * n + src.n(2 * n)) + 'y.'
            elif k == 2:
                s += vec(v) + 'g.'
            elif k == 3:
                s += num(src.pick([65, 7, 1 << 33])) + vec(v) + 'p' + vec(v) + 'g.'
            elif k == 4:
                s += num(9 + src.n(3 * n)) + 'y.'
            else:
                # something for the child to meet
                v = [x] + [0] * (n - 1)
                v[d] = up
                s += num(ord(src.pick('@>r<z.'))) + vec(v) + 'p'
        s += '7y.' + src.pick('qqqqq@')
        text = s + ('\vz' if dims == 4 else '')
        case = self.finish(cfg, args, text, '', {}, FINGERS)
        case['_stats']['watched'] = case['_stats']['NFUN'] = 1
        return case

    def config(self, src, dims):
        return Config(dims=dims, K=7, inverthl=self.inv)

    def stdarg(self, dims):
        return [] if dims > 3 else super().stdarg(dims)

    def finish(self, cfg, args, text, stdin, files, fin):
        if self.inv:
            args = ['-finvert-hl'] + args
        return make(cfg, cfg.dims < 4, args, text, stdin, files, fin, K=7)


PROP = P()
