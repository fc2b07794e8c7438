"""Items and cases of lazily generated ><> and *><> programs."""
from .gen98 import *
from .fish import FishModel, StarModel, OutOfDomain


def fnum(n):
    """Code that pushes a whole number."""
    if n < 0:
        return '0' + fnum(-n) + '-'
    if n < 16:
        return '0123456789abcdef'[n]
    q, r = divmod(n, 15)
    return fnum(q) + 'f*' + (fnum(r) + '+' if r else '')


NUMS = ['0', '1', '2', '3', '7', '9', 'a', 'f', '01-', '12,', '13,', '07-4,', 'ff*f*', "'z'", '"\xff"', '1f,f,', 'fff***', 'aa*a*a*a*', 'ff*:*:*', 'ff*:*:*:*',
        '01a,-', '1aa*a*a*,', '"\x80"']


def number(lz, m, ip):
    src = lz.src
    return src.pick(NUMS) if src.n(2) else src.pick('0123456789abcdef')


def pad(lz, m, ip, n):
    """Numbers, so that the stack holds n of them; now and then not."""
    st = m.top(ip)
    miss = n - len(st.s)
    if miss <= 0 and lz.src.n(3):
        return ''
    if miss > 0 and lz.src.n(250) == 249:
        return ''
    return ''.join(number(lz, m, ip) for _ in range(max(miss, lz.src.n(n + 1))))


def op(chars, n):
    def f(lz, m, ip):
        return pad(lz, m, ip, n) + lz.src.pick(chars)
    return f


def nonzero(lz, m, ip):
    c = lz.src.pick(',%')
    return pad(lz, m, ip, 1) + (lz.src.pick(['2', '3', '7', 'a', '01-', '13,' if c == ',' else '5', '03-', 'ff*']) if lz.src.n(150) else '0') + c


def move(lz, m, ip):
    return lz.src.pick('><v^/\\|_#!')


def jump(lz, m, ip):
    src = lz.src
    x, y = src.int(0, lz.box[0] - 1), src.int(0, lz.box[1] - 1)
    if src.n(2):
        # to a cell not used yet, from where on it goes on
        free = [(a, b) for b in range(lz.box[1]) for a in range(ip.pos[0], min(ip.pos[0] + 25, lz.box[0])) if (a, b) not in lz.known]
        if free:
            x, y = src.pick(free)
    return fnum(x) + fnum(y) + '.'


def cond(lz, m, ip):
    return lz.src.pick(['0', '1', '00-', '5', '12,', '01-', '']) + '?'


def place(lz, m, ip):
    src = lz.src
    pool = lz.__dict__.setdefault('pool', [])
    if pool and src.n(2):
        return src.pick(pool)
    k = src.n(6)
    if k < 3:
        v = (src.int(-2, 12), src.int(-2, lz.box[1] + 1))
    elif k == 3:
        n = src.int(1, 20)
        v = (ip.pos[0] + n * ip.delta[0], ip.pos[1] + n * ip.delta[1])
    elif k == 4:
        v = (src.pick([0, -1, 200, -300, 65536]), src.pick([0, 1, -1, 200, -40]))
    else:
        v = (m.f.mins[0] + src.int(-1, 1), m.f.maxs[1] + src.int(-1, 1))
    pool.append(v)
    return v


def put(lz, m, ip):
    v = lz.src.pick(['0', '" "', '"z"', 'a', '"n"', '"1"', 'ff*f*', '01-', '15,', '"\xff"', '07-2,', '"o"', '"+"'])
    x, y = place(lz, m, ip)
    return v + fnum(x) + lz.src.pick(['', '', '', '12,+']) * (x >= 0) + fnum(y) + 'p'


def get(lz, m, ip):
    x, y = place(lz, m, ip)
    return fnum(x) + fnum(y) + 'g' + lz.src.pick(['', 'n'])


def string(lz, m, ip):
    src = lz.src
    q = src.pick('"\'')
    other = '\'' if q == '"' else '"'
    return q + ''.join(src.pick(['a', 'Z', '0', '  ', ' ', other, '\\', '\x7f', '\xff', '\x80', 'o', ';', '>']) for _ in range(src.n(7))) + q


def out(lz, m, ip):
    src = lz.src
    k = src.n(4)
    if k == 0:
        return pad(lz, m, ip, 1) + 'o'
    if k == 1:
        return 'ao'
    return pad(lz, m, ip, 1) + 'n'


def newstack(lz, m, ip):
    n = len(m.top(ip).s)
    k = lz.src.int(0, min(n, 8)) if lz.src.n(120) else n + 1
    return fnum(k) + '['


def closestack(lz, m, ip):
    if m.depth(ip) < 2 and lz.src.n(120):
        return '0['
    return ']'


def register(lz, m, ip):
    if m.regs[-1] is None:
        return pad(lz, m, ip, 1) + '&'
    return '&'


def wrong(lz, m, ip):
    return lz.src.pick('ABGHJKLMNPQTUVWXYZjkqtwyz\x7f\xff' + ('' if m.STAR else '`CRuOIDFShms'))


def finish(lz, m, ip):
    """Print all stacks, then end."""
    if ip.end is not None:
        return chr(ip.end)
    if m.mode & 0x20000:
        return 'O'
    if ip.select:
        return 'I'
    st = m.top(ip)
    if st.s:
        return 'nao' if len(st.s) < 40 else '[' if lz.src.n(2) else '~'
    if len(ip.ss) > 1 and len(m.regs) > 1:
        if m.regs[-1] is not None:
            return '&'
        return 'ln]'
    if m.regs[-1] is not None and len(ip.ss) == 1:
        return '&'
    return ';'


class FishProp(FungeProp):
    table = ()
    star = False
    box = (120, 4)
    draws = (12, 40, 90, 140)

    def config(self, src):
        cfg = Config(dims=2, std=98, strings='multispace', filesystem=True)
        cfg.model = StarModel if self.star else FishModel
        return cfg

    def files(self, src):
        return {}

    def gen(self, src):
        cfg = self.config(src)
        ext = src.pick(['fish', 'std']) if not self.star else src.pick(['sf', 'std'])
        name = 'p.b98' if ext == 'std' else 'p.' + ext
        args = [] if cfg.filesystem else ['-fno-filesystem']
        if ext == 'std':
            args.append('-std=sfish' if self.star else '-std=fish')
        stdin = ''.join(src.pick('ab 1\n\xff\x00z') for _ in range(src.n(8)))
        files = self.files(src)
        text, m, lz = build(src, cfg, self.box, self.table, src.pick(self.draws), stdin=stdin, files=files, finisher=finish, space=1, escape=6, max_moves=8000, corner=114)
        case = make(cfg, True, args, text, stdin, files, name=name)
        case['smell'] = bool(case['_model'].err)
        st = case['_stats']
        st[ext] = 1
        return case

    def check(self, case, ex):
        msg = judge(case, ex)
        if msg:
            return msg
        smell = 'something smells fishy...\n' in ex.err
        if smell != case['smell']:
            return 'the diagnostic on stderr is %r, expected %s' % (ex.err[:200], 'something smells fishy...' if case['smell'] else 'none')
        return None

    def labels(self, case):
        return [k for k in case.get('_stats', ()) if len(k) > 1 or k in '.?[]&gpCRuOIDF`{}r@i']

    def nontrivial(self, case):
        return case.get('_model') is None or case['_model'].ticks >= 10
