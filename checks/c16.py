from lib.fpgen import *
from lib.big import also
import struct

STR = ['0', '1.5', '-2.25', '1e10', '-3e-5', '1e300', '1e40', '7e-46', '0x1.8p3', '3.14159265358979', 'inf', '-inf', '  12 ', '+4', '1.5abc', 'abc', '', '.', '-.5', '1e', '9007199254740993',
       '16777217', '0.1', '1e-320', '-0', '123456789.123456789']


def real(lz, m):
    """Code that pushes a number of the fingerprint that is loaded."""
    src = lz.src
    k = src.n(8)
    if k < 3:
        return num(src.int(0, 9)) + 'F'
    if k == 3:
        return num(src.int(-200, 200)) + 'F' + num(src.int(1, 16)) + 'FD'
    if k == 4:
        return num(src.pick([0, 1, -1, 1 << 24, (1 << 24) + 1, (1 << 53) + 1, (1 << 62) + 1, -(1 << 63), (1 << 63) - 1, src.int(-(1 << 40), 1 << 40)])) + 'F'
    if k == 5:
        s = src.pick(STR)
        if src.n(3) == 0:
            s = '%s%d.%de%d' % (src.pick(['', '-']), src.n(100), src.n(10000), src.int(-30, 30))
        return '0"%s"R' % s[::-1] if s and '  ' not in s else '0R'
    if k == 6:
        f = src.pick([0.5, 1.0, -1.0, 0.25, 2.0, 1e-3, 0.7071067811865476, 3.5, 10.0, -0.0])
        single = fpid('FPSP') in ip_loaded(m)
        return num(struct.unpack('<I', struct.pack('<f', f))[0] if single else struct.unpack('<q', struct.pack('<d', f))[0])
    return ':'


def ip_loaded(m):
    return m.runners[0].loaded[-1:]


K16 = dict(KINDS)
K16['g'] = real
K16['k'] = lambda lz, m: num(lz.src.pick([0, 1, -1, 2, -3, 5, 10, 100, -77, lz.src.int(-1000, 1000), lz.src.int(-(1 << 50), 1 << 50)]))


def nums():
    t = [(4, 'gg' + c) for c in 'ASMD'] + [(2, 'g' + c) for c in 'NVIP'] + [(1, 'g' + c) for c in 'BCEGHKLQTX'] + [(2, 'ggY'), (2, 'kF')]
    return [(w, op(p[:-1], p[-1], K16)) for w, p in t] + [
        (2, lambda lz, m, ip: real(lz, m)), (3, lambda lz, m, ip: real(lz, m) + 'P'), (2, lambda lz, m, ip: real(lz, m) + lz.src.pick('BCEGHKLQTX') + lz.src.pick(['P', '.', '']))]


def fmt(src, conv, lens=('',)):
    f = ''.join(src.pick(['', '', '-', '+', '0', '#', '-+'])) + src.pick(['', '', '5', '12', '1', '30'])
    if src.n(3) == 0:
        f += src.pick(['.0', '.1', '.3', '.10', '.'] if conv not in 'c' else [''])
    if f.endswith('.'):
        f += '2'
    s = src.pick(['', 'x=', '%%', 'a b ']) + '%' + f + src.pick(lens) + conv + src.pick(['', '!', ' %%', 'z'])
    if src.n(12) == 0:
        s = src.pick(['', 'plain', '100%%'])
    if src.n(12) == 0:
        # one that asks for more, or for something else
        s = src.pick(['%s%s', '%d%d', '%n', '%*d', '%s', '%d', '%f', '%', 'a%', '%5', '%g%g', '%ld%s', '%%%', '%d%d%d', '%x', '%c%n', '%.3', 'x%sy%s'])
    return s


def pushfmt(s):
    return '0"%s"' % s[::-1] if s else '0'


def fprt(lz, m, ip):
    src = lz.src
    k = src.pick('DFILS')
    if k in 'DF':
        f = fmt(src, src.pick('feg'))
        x = src.pick([0.0, 1.0, -1.5, 3.14159, 1e10, -2.5e-7, 123456.789, 1e100, 0.5, 1.5, 2.5, float('inf'), src.int(-10000, 10000) / 64])
        if k == 'F':
            n = struct.unpack('<I', struct.pack('<f', min(x, 1e30) if x != float('inf') else x))[0]
        else:
            n = struct.unpack('<q', struct.pack('<d', x))[0]
        return pushfmt(f) + num(n) + k
    if k == 'I':
        return pushfmt(fmt(src, src.pick('dxou'), ('l', 'l', 'll'))) + num(any_int(src)) + k
    if k == 'L':
        return pushfmt(fmt(src, src.pick('dxo'), ('l', 'll'))) + num(src.pick([0, 1, -1, 5, 1 << 20])) + num(src.pick([0, 1, 9, 77, (1 << 32) - 1, 1 << 31])) + k
    return pushfmt(fmt(src, 's')) + strcode(text(src)) + k


def printstr(lz, m, ip):
    """Print the string on the stack with its zero."""
    n = 0
    st = m.top(ip).s
    if not st or st[-1] == 0:
        return '.'
    return '.' if lz.src.n(3) else ','


FN = nums()
OPS = {'FPSP': FN, 'FPDP': FN, 'FPRT': [(5, fprt), (3, printstr)]}


class P(FpProp):
    id = 'C16'
    rule = ('Programs that load FPSP, FPDP or FPRT and compute and print with numbers made from cells, strings, bit patterns and results; compared with a model that '
            'computes with the IEEE formats (basic operations rounded correctly, functions by the C library at that width, and formatting by snprintf). '
            'Non-trivial: an instruction of a fingerprint ran.')
    quick = 9000
    thorough = 120000
    names = [(3, 'FPSP'), (3, 'FPDP'), (2, 'FPRT')]
    ops = OPS
    base = [(2, I.show), (1, I.digit), (1, I.shuffle), (1, I.direction3)]
    dims = ((6, 2), (1, 1), (1, 3))


PROP = also(P())
