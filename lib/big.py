"""Large programs: what holds for a few values, cells, IPs, stacks, letters or lines holds for thousands of them.

Each template writes a program with repetition, mostly straight on, whose sizes are chosen; the model says what comes out. `also(prop, name)` mixes
them into the cases of a property."""
import random
from .gen98 import *
from .model98 import Config, OutOfDomain
from .engine import Discard

SIZES = [40, 130, 260, 300, 520, 700, 1030, 1500]


def rnd(src):
    return random.Random(src.n(1 << 16))


def size(src, hi=1500, lo=1):
    return max(lo, min(hi, src.pick(SIZES) + src.int(-3, 3)))


def vals(R, n):
    return [R.choice([R.randint(0, 9), R.randint(-300, 300), R.randint(-(1 << 63), (1 << 63) - 1), R.choice([1 << 31, 1 << 32, (1 << 63) - 1, -(1 << 63), 255, 256])]) for _ in range(n)]


def case(src, text, dims=2, cfg=None, args=(), fps=(), keep=True, **kw):
    from .fingers import FINGERS, fpid
    cfg = cfg or Config(dims=dims)
    if fps:
        cfg.fingerprints = [fpid(n) for n in fps]
    a = [x for x, on in (('-fno-execute', cfg.execute), ('-fno-filesystem', cfg.filesystem)) if not on]
    a += ['-std=' + {1: 'une98', 2: 'be98', 3: 'tre98'}[dims]] if keep else []
    a += ['-l' + n for n in fps]
    c = make(cfg, True, a + list(args), text, fingers=FINGERS, big=True, max_ticks=120000, max_moves=3000000, **kw)
    c['kind'] = 'big'
    c['_stats'] = {'large': 1}
    del c['_model']
    return c


def c01(src):
    R, n = rnd(src), size(src)
    s = ''.join(num(v) for v in vals(R, n))
    s += ''.join(R.choice(['+', '-', '*', '\\', ':', '`', '!', '%', '/', '\\-', ':*', '$']) for _ in range(size(src))) + '.' * size(src, 900)
    return case(src, s + '@', src.pick([1, 2, 3]))


def cell(R, dims):
    return tuple(R.choice([R.randint(-40, 900), R.randint(-1000, 2000), R.choice([1, -1]) * (1 << R.randint(8, 40)) + R.randint(-2, 2)]) if d or dims < 2
                 else R.randint(2000, 20000) * R.choice([1, -1]) for d in range(dims))


def bounds(dims):
    return ''.join(num(9 + 3 * dims + k) + 'y.' for k in range(1, 2 * dims + 1))


def c02(src):
    R, n, dims = rnd(src), size(src, 700), src.pick([1, 2, 3])
    cells = list({cell(R, dims) for _ in range(n)})
    if dims > 1:
        cells = [(c[0],) + tuple(x if abs(x) > 3 else 7 for x in c[1:]) for c in cells]
    else:
        cells = [(c if abs(c[0]) > 40000 else (50000 + c[0],)) for c in cells]
    s = ''.join(num(R.choice([1, 65, 255, 300, -1, 1 << 40])) + vec(c) + 'p' for c in cells) + bounds(dims)
    R.shuffle(cells)
    s += ''.join(vec(c) + 'g.' for c in cells[:200])
    out = sorted(cells, key=lambda c: -abs(c[R.randrange(dims)])) if R.random() < 0.5 else cells
    for i, c in enumerate(out[:R.choice([20, 200, len(out)])]):
        s += num(32) + vec(c) + 'p' + (bounds(dims) if i % 37 == 0 else '')
    s += bounds(dims) + ''.join(vec(c) + 'g.' for c in cells[:100]) + '@'
    return case(src, s, dims)


def c03(src):
    R, n, dims = rnd(src), R_len(src), src.pick([1, 2, 3])
    # over the edges of a wide space, and leaps within it
    gap = ' ' * n
    k = src.n(4)
    if k == 0:
        s = '<@' + gap + ''.join(reversed('1.2.' + num(n)))
    elif k == 1:
        s = '1.' + gap + '2.#' + gap + '3.#@' + gap + '4.@'
        if dims > 1:
            s = 'v' + gap * 3 + '@.9\n>' + s + '\n ' + gap + 'q'
    elif k == 2:
        s = num(n - 1) + 'j' + gap + '1' * 20 + '.' * 30 + '@' + gap + '@'
    else:
        d = src.int(2, 97)
        w = src.int(300, 3000)
        s = list(num(d) + '0' * (dims - 1) + 'x')
        s += ' ' * (w - len(s))
        for i in range(3, w):
            if s[i] == ' ':
                s[i] = R.choice('.1234567890:+') if R.random() < 0.97 else R.choice('@#r')
        s = ''.join(s)
    return case(src, s, dims)


def R_len(src):
    return src.pick([90, 130, 255, 256, 300, 1000, 1025, 4097, 20000, 33000, 40000, 70000])


def c04(src):
    R, n, dims = rnd(src), size(src), src.pick([1, 2, 3])
    k = src.n(5)
    if k == 0:
        s = '7' + num(n) + 'k:' + num(n) + 'k+.' + '.' * 20
    elif k == 1:
        s = ''.join('1;' + R.choice('abc@.,+') * R.randint(0, n) + ';.' for _ in range(9)) + num(3) + '.'
    elif k == 2:
        s = ''.join(num(R.randint(0, 3)) + 'k' + ' ' * R.randint(0, 3) + R.choice(['1', '.', ':', ';@@@;2', '+']) + '.' for _ in range(n))
    elif k == 3:
        s = num(n) + 'j' + '@' * n + ''.join('#@' + R.choice(['1.', '#@2.', '3']) for _ in range(n))
    else:
        s = '1' + num(n) + 'k' + '9k'.join(['', '']) + ':' + '.' * 30
    return case(src, s + '@', dims)


def c05(src):
    R, n, dims = rnd(src), size(src, 1000), src.pick([1, 2, 3])
    k = src.n(4)
    if k == 3:
        # zeroes
        s = ''.join(num(R.randint(1, 9)) for _ in range(src.int(0, 9)))
        s += num(-n) + '{' + src.pick(['', '7', '78']) + num(src.pick([0, 1, 2, -n, n // 2, -3])) + '}' + '.' * src.pick([20, n // 2, n + 12]) + 'n' + '1.'
    elif k == 0:
        # deep
        s = ''.join(num(R.randint(-3, 9)) * R.randint(0, 2) + num(R.randint(-2, 3)) + '{' for _ in range(n))
        s += '..' + ''.join(R.choice(['.', '1', '12', '', 'n']) + num(R.randint(-2, 4)) + '}' + R.choice(['', '', '..']) for _ in range(n))
    elif k == 1:
        # wide
        s = ''.join(num(v) for v in vals(R, n))
        s += num(n + src.int(-5, 5)) + '{' + '.' * 5 + num(src.pick([n, -n, n // 2, -n // 3])) + 'u' + '.' * src.int(0, 9) + num(src.pick([n, -n, n // 2, 0, n + 9])) + '}' + '.' * src.pick([30, 2 * n])
    else:
        s = ''.join(num(v) for v in vals(R, 40))
        d = 0
        for _ in range(n):
            k = R.randrange(7 if d else 4)
            d += 1 if k == 0 else -1 if k == 6 else 0
            s += [num(R.randint(-9, 30)) + '{', '.', '1', '123', num(R.randint(-40, 40)) + 'u', '2n', num(R.randint(-9, 30)) + '}'][k]
        s += '.' * 40
    return case(src, s + '@', dims)


def c06(src):
    R, n, dims = rnd(src), min(R_len(src), 20000), src.pick([1, 2, 3])
    cfg = Config(dims=dims, strings=src.pick(['sgml', 'multispace', 'c']))
    t = ''.join(R.choice(['a', 'b', '9', '@', ' ', '  ', ' ' * R.randint(1, 400), 'v', ';', "'", 'xyz']) for _ in range(n // 8 + 1))[:6000]
    s = '"' + t + '"' + num(min(len(t), 3000)) + 'k,' + '.' * 30
    s += ''.join("'" + R.choice('abc ') + '.' + R.choice(['', '1s ']) for _ in range(200))
    return case(src, s + '@', dims, cfg, ['-fstrings=' + cfg.strings])


def c07(src):
    R, dims = rnd(src), src.pick([1, 2, 3])
    k = src.n(3 if dims > 1 else 1)
    w, h, d = [(src.pick([300, 1100, 5000, 70000]), 2, 1), (12, src.pick([200, 260, 1100, 5000]), 1), (9, 2, src.pick([130, 260, 400]))][k] if dims > 1 else (src.pick([3000, 20000]), 1, 1)
    if k == 2 and dims < 3:
        d = 1
    eol = src.pick(['\n', '\r\n', '\r'])
    chars = 'abcdefgh0123 \xe9\xff\x80'
    planes = []
    for z in range(d):
        planes.append([''.join(R.choice(chars) for _ in range(R.randint(w // 2, w) if w > 100 else R.randint(0, w))) for _ in range(h)])
    s = ''
    for _ in range(120):
        z = R.randrange(d)
        y = R.randrange(1, h) if z == 0 and h > 1 else R.randrange(h)
        x = R.randrange(w + 3)
        s += vec((x, y, z)[:dims]) + 'g.'
    s += bounds(dims) + '@'
    if dims == 1:
        # one line, the program at its begin
        rows = s + planes[0][0]
        text = rows + eol
    else:
        planes[0][0] = s
        text = (eol + '\f').join(eol.join(p) for p in planes) + src.pick([eol, ''])
    return case(src, text, dims)


def c08(src):
    R, n = rnd(src), size(src, 1200)
    k = src.n(3)
    if k == 0:
        inp = ''.join(R.choice([str(R.randint(0, 1 << 40)), str(R.randint(0, 9)), '0' * R.randint(0, 17) + '7']) + R.choice([' ', '\n', ',', 'x', '-', '  ', '\n\n']) for _ in range(n))
        s = '&.' * (n - 1)
    elif k == 1:
        inp = ''.join(chr(R.choice([R.randrange(256), 97, 10, 0, 255])) for _ in range(n))
        s = '~,' * n
    else:
        inp = ''.join(R.choice(['abc' * R.randint(1, 600), 'x\n', ' ']) + str(R.randint(0, 999)) + R.choice([' ', '\n']) for _ in range(n // 5 + 1))
        s = ''.join(R.choice(['&.', '~.', '~$']) for _ in range(n // 5))
    return case(src, s + '@', src.pick([1, 2, 3]), stdin=inp)


def name98(s):
    return '0"' + s[::-1] + '"'


def c09(src):
    R = rnd(src)
    w, h = src.pick([(300, 3), (3, 300), (90, 90), (1030, 4), (2, 1200), (5000, 2)])
    data = '\n'.join(''.join(R.choice('abcdef 0123\xff') for _ in range(R.randint(0, w))) for _ in range(h))
    at = src.pick([(0, 5), (-7, 9), (300, 3), (-2000, 40)])
    s = vec(at) + src.pick('01') + name98('in') + 'i....'
    area = src.pick([(w, h), (w + 3, h + 2), (w // 2 + 1, h)])
    f = src.pick('01')
    s += vec(area) + vec(at) + f + name98('out') + 'o'
    s += ''.join(vec((at[0] + R.randint(-1, w), at[1] + R.randint(-1, h))) + 'g.' for _ in range(60)) + bounds(2) + '@'
    cfg = Config(dims=2, filesystem=True)
    return case(src, s, 2, cfg, files={'in': data})


def c10(src):
    """Every IP splits at each of the columns left to it."""
    n = src.pick([3, 5, 7, 8, 9])
    tail = src.pick(['8y.@', '1.8y.@', '8y:.2%k1n.@', '8y.2.3.@', '8y,@'])
    rows = []
    for r in range(n + 1):
        rows.append(' ' * (2 * r) + ('>#v' + src.pick(['t', 't', 't', ' ']) if r else '>#vt') * n + ' ' * (2 * (n - r)) + tail)
    return case(src, '\n'.join(rows), src.pick([2, 3]))


def c12(src):
    R, n = rnd(src), size(src, 400)
    env = {'V%d' % i: 'x' * R.randint(0, 40) for i in range(src.pick([0, 3, n]))}
    tail = [''.join(R.choice('abc -') for _ in range(R.randint(1, 30))) for _ in range(src.pick([0, 4, n]))]
    if src.n(4) == 0:
        tail.append('y' * 5000)
    dims = src.pick([2, 3])
    k = src.n(3)
    s = ''
    if k == 0:
        s += ''.join('0{' for _ in range(n)) + ''.join(num(9 + 5 * dims + R.randint(1, n + 4)) + 'y.' for _ in range(60)) + num(9 + 5 * dims + 2) + 'y.'
    elif k == 1:
        s += num(n) + 'k1' + ''.join(num(R.choice([R.randint(1, 400), R.randint(1, 5000)])) + 'y.' for _ in range(60))
    else:
        s += '0y' + 'n'.join(['', '']) + '1.' + ''.join(num(R.randint(30, 3000)) + 'y.' for _ in range(100))
    cfg = Config(dims=dims)
    return case(src, s + '@', dims, cfg, env=env, tail=tail, wild=True)


def c14(src):
    R, n = rnd(src), size(src, 320)
    names = ['BOOL', 'BITW', 'ORTH', 'CPLI', 'ROMA']
    h = []
    s = ''
    for _ in range(n):
        if h and R.random() < 0.4:
            x = h.pop()
            s += '"%s"4)' % x[::-1]
        else:
            x = R.choice(names)
            h.append(x)
            s += '"%s"4($$' % x[::-1]
        if R.random() < 0.3 and h:
            s += num(R.randint(0, 9)) + num(R.randint(0, 9)) + {'BOOL': 'AOX', 'BITW': 'AOX', 'ORTH': 'AOE', 'CPLI': 'V', 'ROMA': 'IVXLCDM'}[h[-1]][R.randrange(1 if h[-1] == 'CPLI' else 3)] + '.'
    while h:
        x = h.pop()
        s += '"%s"4)' % x[::-1]
        if R.random() < 0.3 and h:
            s += '54' + {'BOOL': 'A', 'BITW': 'X', 'ORTH': 'O', 'CPLI': 'V', 'ROMA': 'M'}[h[-1]] + '.'
    return case(src, s + '@', src.pick([1, 2, 3]))


def c16(src):
    R = rnd(src)
    s = ''
    for _ in range(src.int(1, 4)):
        n = src.pick([200, 255, 256, 257, 500, 511, 512, 800, 1000, 1022, 1023])
        k = R.choice('SSSDFIL')
        f = R.choice(['', 'x', '%%']) + '%' + R.choice(['', '-', '0' if k != 'S' else '']) + str(R.choice([0, n - 9, n - 200, 150])) * R.randint(0, 1)
        if R.random() < 0.3 and k != 'S':
            f += '.%d' % R.choice([3, 90, n // 2])
        f += {'S': 's', 'D': R.choice('feg'), 'F': R.choice('feg'), 'I': R.choice(['ld', 'lx', 'lld']), 'L': 'ld'}[k]
        if '%-0' in f or '%00' in f:
            f = f.replace('%-0', '%-').replace('%00', '%0')
        s += name98(f)
        if k == 'S':
            m = max(1, n - R.choice([0, 1, 2, 3, 9, 100]))
            s += '0' + "'" + R.choice('abc') + num(m) + 'k:' + "'" + R.choice('xyz')
        elif k == 'L':
            s += num(R.randint(0, 999)) + num(R.randint(0, 1 << 31))
        else:
            s += num(R.choice([R.randint(-(1 << 63), (1 << 63) - 1), 0x4009000000000000, 12345]) if k != 'F' else R.choice([0x40490fdb, 0x7149f2ca, 0xc2f00000 - (1 << 32), 0x00000001, 0x3f000000]))
        s += k + '1-' + R.choice(['', 'zz'])
        # the length shows, and what is at the ends
        s += num(n - 3) + 'k,' + '.' * R.choice([6, 12]) + 'n'
    return case(src, s + '@', 2, fps=['FPRT'])


def c17(src):
    R, n = rnd(src), size(src, 3000)
    k = src.n(4)
    if k == 0:
        t = ''.join(R.choice('abcxyz019') for _ in range(n))
        u = ''.join(R.choice('abcxyz019') for _ in range(n // 2))
        s = name98(t) + 'N.' + name98(u) + 'A' + 'N.' + num(R.randint(0, n)) + 'R' if False else name98(t) + name98(u) + 'A' + 'N.' + num(src.pick([1, n // 2, n, n + 50])) + src.pick('LR') + 'D'
        return case(src, s + '@', 2, fps=['STRN'])
    if k == 1:
        t = ''.join(R.choice('abcxyz019 ') for _ in range(n)).replace('  ', ' x').strip() or 'a'
        v = vec((src.int(-5, 40), src.pick([3, -4, 9])))
        s = name98(t) + v + 'P' + v + 'G' + 'D'
        return case(src, s + '@', 2, fps=['STRN'])
    if k == 2:
        m = min(n, 600)
        v = [(R.randint(-1000, 1000), R.randint(-1000, 1 << 40)) for _ in range(m)]
        s = ''.join(vec(x) + 'R' for x in v) + ''.join(R.choice([':.', '', ':D..', ':D..', '::D..1$D..']) + 'D..' for _ in range(m))
        return case(src, s + '@', 2, fps=['REFC'])
    t = ''.join(num(R.choice([R.randint(0, 1 << 60), R.randint(-(1 << 63), (1 << 63) - 1), 7])) + R.choice(['B', 'H', 'O', num(R.choice([2, 3, 7, 36, 58, 64, 85])) + 'N']) for _ in range(min(n, 300)))
    return case(src, t + '@', 2, fps=['BASE'])


def c18(src):
    R, n = rnd(src), size(src, 1500)
    if src.n(2):
        s = ''.join(num(v) for v in vals(R, n))
        s += ''.join(num(R.choice([R.randint(0, n - 9), R.randint(n // 2, n - 1), R.randint(0, 20)])) + R.choice('PRL') for _ in range(60)) + 'D.' + '.' * min(n, 300)
        return case(src, s + '@', 2, fps=['FRTH'])
    w, h = src.pick([(20, 25), (1, 500), (500, 1), (24, 24), (11, 30)])
    s = ''
    for _ in range(30):
        s += num(R.randint(33, 120)) + vec((R.randint(0, w - 1), 5 + R.randint(0, h - 1))) + 'p'
    for _ in range(src.int(1, 4)):
        s += vec((0, 5)) + vec((w, h)) + vec((R.randint(-30, 30), 5 + R.randint(-1, 40) if R.random() < 0.7 else 600)) + src.pick('CKMV')
    s += ''.join(vec((R.randint(-3, w + 30), 5 + R.randint(0, h + 30))) + 'g.' for _ in range(150))
    return case(src, s + '@', 2, fps=['TOYS'])


def c20(src):
    R, n = rnd(src), size(src, 1500)
    s = src.pick(['', 'I', 'Q', 'IQ']) + ''.join(num(v) for v in vals(R, n)) + src.pick(['', 'Q', 'I', 'QI'])
    for _ in range(src.pick([20, 200])):
        s += R.choice(['.', ':.', '\\', '+', '1', '2-', 'Q', 'I', '', '$'])
    return case(src, s + '.' * min(n, 500) + '@', src.pick([1, 2, 3]), fps=['MODE'])


def fish(star):
    def f(src):
        from .fish import FishModel, StarModel
        R, n = rnd(src), size(src, 900)
        cfg = Config(dims=2, std=98, strings='multispace', filesystem=True)
        cfg.model = StarModel if star else FishModel
        k = src.n(4)
        if k == 0:
            s = ''.join(R.choice('0123456789abcdef') for _ in range(n)) + ''.join(R.choice('+-*,{}r:$@') if R.random() < 0.8 else 'ln' + 'ao' for _ in range(n // 2)) + 'nao' * 30
        elif k == 1:
            s = ''.join('12345'[:R.randint(1, 5)] + R.choice(['0[', '1[', '0[']) for _ in range(n)) + ''.join(R.choice(['lnao', ']', ']', 'r]', '1]']) for _ in range(n)) + 'lnao'
        elif k == 2:
            t = ''.join(R.choice('abc ;0+') for _ in range(n))
            s = src.pick('"\'')
            s = s + t + s + 'o' * min(n, 700) + 'lnao'
        else:
            w = n + 60
            s = ''.join('%s&%s' % (R.choice('0123456789'), R.choice(['&nao', '&nao', ''])) if False else R.choice(['3', '4*', '5+', ':', '&' + '&']) for _ in range(n)) + 'lnao' + 'nao' * 9
        args = ['-std=' + ('sfish' if star else 'fish')]
        cfg2 = cfg
        c = make(cfg2, True, args, s + ';', big=True, max_ticks=120000, max_moves=3000000)
        c['smell'] = bool(c['_model'].err)
        c['kind'] = 'big'
        c['_stats'] = {'large': 1}
        return c
    return f


def c24(src):
    R, n = rnd(src), size(src, 300)
    args = []
    for _ in range(n):
        args.append(R.choice(['-fstrings=sgml', '-ftopo=lahey', '-std=be98', '-fcells=int', '-lBOOL', '-lROMA']))
    args.append('-std=be98')
    args.append('-fstrings=sgml')
    args.append('-ftopo=lahey')
    tail = ['-std=une98', '-g'] if src.n(2) else []
    from .fingers import fpid
    cfg = Config(dims=2)
    cfg.fingerprints = [fpid(a[2:]) for a in args if a.startswith('-l')]
    top = [a for a in args if a.startswith('-l')]
    s = '"a  b"...,' + ('12A.' if top and top[-1] == '-lBOOL' else '1.')
    name = src.pick(['p.b98', 'x' * 200 + '.b98', 'a.b' * 30 + '.bf', '-x.b98'[1:]])
    return case(src, s + '@', 2, cfg, args, name=name, tail=tail)


TEMPLATES = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10, 'C12': c12,
             'C14': c14, 'C16': c16, 'C17': c17, 'C18': c18, 'C20': c20, 'C21': fish(False), 'C22': fish(True), 'C24': c24}


def also(p, weight=60):
    """Makes one case in `weight` a large one."""
    gen, check, nontrivial, labels, sample = p.gen, p.check, p.nontrivial, p.labels, p.sample
    t = TEMPLATES[p.id]

    def gen2(src):
        if src.n(weight) != weight - 1:
            return gen(src)
        return t(src)

    def check2(case, ex):
        if case.get('kind') != 'big' or p.id in ('C12', 'C17', 'C21', 'C22'):
            return check(case, ex)
        return judge(case, ex)
    p.gen = gen2
    p.check = check2
    p.nontrivial = lambda case: case.get('kind') == 'big' or nontrivial(case)
    p.labels = lambda case: ['large'] if case.get('kind') == 'big' else labels(case)
    p.sample = lambda case: sample(case) if case.get('kind') != 'big' else {
        'large': {n: t[:150] for n, t in case['files'].items()}, 'args': case['args'][:9], 'expected': case['out'][:150]}
    p.rule += ' Some cases are large: hundreds or thousands of cells, values, stacks, lines, letters or IPs.'
    return p
