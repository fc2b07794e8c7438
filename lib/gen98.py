"""Lazy generation of Funge-98 programs: a cell is made up when the model first needs it.

So every generated instruction is executed, with the stack and the surroundings known when it is chosen.
"""
import re
from .engine import Prop, Discard
from . import model98 as M
from .model98 import Model, Field, Config, OutOfDomain, Budget, load_text


class All:
    def __contains__(self, p):
        return True

    def add(self, p):
        pass


class Lazy:
    """The table is a list of (weight, item); an item is a string of characters, or a function of (lazy, model, ip)
    that makes one."""

    def __init__(self, src, box, table, finish_at, queries=(), strchars=None, ktable=None, datachars=None, endstr=4,
                 finisher=None, corners=True, space=2, escape=0, corner=122):
        self.src = src
        self.box = box            # sizes for each dimension
        self.table = table
        self.finish_at = finish_at
        self.queries = list(queries)
        self.known = set()
        self.init = {}
        self.ndraws = 0
        self.over = False
        self.iterating = False
        self.pending = {}         # by IP
        self.asked = {}
        self.marks = [-1]
        self.model = None
        self.frozen = False
        self.strchars = strchars or ' abcXYZ019+-<>@;k'
        self.datachars = datachars or 'aZ09 .+@~\x7f\xff\x80!"'
        self.ktable = ktable
        self.endstr = endstr
        self.finisher = finisher or finish98
        self.corners = corners
        self.corner = corner
        self.space = space
        self.escape = escape      # tenths of the items that turn back along x where a program would run in a circle
        self.fdraws = 0
        self.last = 0
        self.patience = 200

    def stagnant(self, m, ip):
        if m.ticks - self.last > self.patience:
            raise Budget('nothing new')

    def attach(self, model):
        self.model = model
        if model.hook is None:
            model.hook = self.stagnant
        f = model.f
        f.lazy = self
        if self.corners:
            hi = tuple(b - 1 for b in self.box) + (0,) * (f.K - len(self.box))
            self.known.add(hi)
            # the last corner keeps the bounds of the program where the box is
            ch = self.corner
            self.init[hi] = ch
            f.c[hi] = ch
            f.mins = [0] * f.K
            f.maxs = list(hi)
            self.origin_needed = True

    def freeze(self):
        self.known = All()
        self.frozen = True

    def layout(self, m, ip):
        """Put what the IP has ahead of it into the cells."""
        p = ip.pos
        for ch in self.pending.pop(ip.id, ()):
            p = m.add(p, ip.delta)
            if p in self.known or any(not 0 <= a < (self.box[i] if i < len(self.box) else 1) for i, a in enumerate(p)):
                raise OutOfDomain('no room')
            self.known.add(p)
            if ch != ' ':
                self.init[p] = ord(ch)
                m.f.put(p, ord(ch))

    def bounds_read(self):
        pass

    def need(self, p, data):
        for i, a in enumerate(p):
            hi = self.box[i] if i < len(self.box) else 1
            if a < 0 or a >= hi:
                self.known.add(p)
                return 32
        c = self.draw(p, data)
        self.known.add(p)
        if c == 32 and self.corners and not any(p):
            c = self.corner
        if c != 32:
            self.init[p] = c
            self.model.f.c[p] = c
        return c

    def draw(self, p, data):
        m = self.model
        ip = m.runners[0]
        self.ndraws += 1
        self.last = m.ticks
        src = self.src
        if src.pos != self.marks[-1]:
            self.marks.append(src.pos)
        pend = self.pending.get(ip.id)
        if pend and not self.over and (not data or p == ip.pos):
            return ord(pend.pop(0))
        fin = self.ndraws > self.finish_at
        if fin:
            self.fdraws += 1
            if self.fdraws > 400:
                raise Budget('finish')
        if self.over:
            if fin or src.n(3) == 0:
                return 59
            return ord(src.pick('>z <"@v^;k'))
        if data and (p != ip.pos or not fin):
            if p == ip.pos and ip.end is None:
                return ord(src.pick(self.datachars))
            return ord(src.pick(self.datachars)) if not fin else 32
        if fin and self.escape and any(ip.delta[1:]) and ip.end is None:
            return 62
        if fin:
            s = self.finisher(self, m, ip)
        elif ip.end is not None:
            if src.n(self.endstr) == 0:
                return ip.end & 255
            return ord(src.pick(self.strchars))
        else:
            if self.escape and not ip.delta[0] and any(ip.delta) and src.n(10) >= 10 - self.escape:
                return ord(src.pick('>><'))
            table = self.ktable if self.iterating and self.ktable else self.table
            if not self.iterating and self.space and src.n(12) >= 12 - self.space:
                return 32
            s = src.weighted(table)
            if not isinstance(s, str):
                s = s(self, m, ip)
        if len(s) > 1:
            self.pending.setdefault(ip.id, []).extend(s[1:])
        return ord(s[0])


def finish98(lz, m, ip):
    """What an IP does at the end: print its stacks, ask the queries, stop."""
    if ip.end is not None:
        return chr(ip.end & 255)
    st = m.top(ip)
    if len(st.s) > 60:
        return 'n'
    if st.s:
        return '.'
    if len(ip.ss) > 1 and m.cfg.std >= 98 and not ip.select:
        return '0}'
    k = lz.asked.get(ip.id, 0)
    if k < len(lz.queries):
        lz.asked[ip.id] = k + 1
        return lz.queries[k]
    return '@'


CONSTS = ['0', '1', '2', '9', '01-', '2:*:*:*:*:*', '2:*:*:*:*:*2/', '2:*:*:*:*:*:2/*', '2:*:*:*:*:*:2/*1-',
          '02:*:*:*:*:*-', '2:*:*:*:*1-', '99*3+', '03-', '07-', '9:*:*:*:*']
CONSTS98 = CONSTS + ['a', 'f', 'c', "'z", "'\xff", "'\x80", 'f1+:*1-', "f'!*"]


def num(n, n98=True):
    """Code that pushes n (any 64-bit integer)."""
    if n < 0:
        if n == -(1 << 63):
            return '2:*:*:*:*:*:2/*'
        return '0' + num(-n, n98) + '-'
    if n < 10:
        return str(n)
    if n98 and n < 16:
        return 'abcdef'[n - 10]
    if n98 and 33 <= n < 256 and n not in (34,) and n != 127:
        return "'" + chr(n)
    b = 15 if n98 else 9
    q, r = divmod(n, b)
    d = 'f' if n98 else '9'
    if q == 1:
        s = d
    else:
        s = num(q, n98) + d + '*'
    return s + (num(r, n98) + '+' if r else '')


def coords(src, lo, hi, near=()):
    c = src.n(8)
    if near and c >= 3:
        return src.pick(near)
    return src.int(lo, hi) if c else src.pick([0, -1, hi])


def vec(v, n98=True):
    return ''.join(num(a, n98) for a in v)


def build(src, cfg, box, table, maxdraws=90, queries=(), stdin='', files=None, fingers=None, corners=True,
          max_ticks=3000, max_moves=60000, prog=None, retries=(2, 3, 6, 12), **kw):
    """Make a program. Returns (text, statistics of the model's run, model after the run)."""
    K = cfg.K
    finish = src.int(src.pick([2, maxdraws // 2, maxdraws // 2]), maxdraws)
    mark = src.mark()
    step = 1
    again = retries if src.rng is not None else ()
    tries = 0
    while tries < 9:
        src.reset(mark)
        field = Field(K, cfg.cells == 'char')
        lz = Lazy(src, box, table, finish, queries=queries, corners=corners, **kw)
        m = (getattr(cfg, 'model', None) or Model)(cfg, field, stdin, dict(files or {}), fingers)
        m.max_moves = max_moves
        if prog:
            prog(lz, m)
        lz.attach(m)
        try:
            m.run(max_ticks)
            break
        except (OutOfDomain, Budget):
            if again and len(lz.marks) > 2:
                # take other choices for the last few cells
                cut = lz.marks[max(1, len(lz.marks) - again[0])]
                again = again[1:]
                del src.rec[cut:]
                continue
            tries += 1
            n = min(lz.ndraws, finish)
            finish = n - step
            step *= 2
            if finish < 1:
                raise Discard('no end')
    else:
        raise Discard('no end')
    f = Field(K)
    f.c = lz.init
    text = f.text()
    return text, m, lz


def rerun(cfg, text, stdin='', files=None, fingers=None, max_ticks=6000, max_moves=200000, K=None, hook=None, wild=False, big=False):
    """Run the finished program from its text."""
    f, dims = load_text(text, cfg.dims if cfg.dims_given else 0, cfg.cells, K or cfg.K)
    c2 = cfg
    if dims != cfg.dims:
        raise Discard('dimensions')
    m = (getattr(cfg, 'model', None) or Model)(c2, f, stdin, dict(files or {}), fingers)
    m.max_moves = max_moves
    m.hook = hook
    m.wild = wild
    if big:
        m.lim, m.lim_many, m.lim_out = 30000, 1100, 900000
    try:
        code = m.run(max_ticks)
    except (OutOfDomain, Budget) as e:
        raise Discard(str(e))
    return code, m


def diff(want, got):
    n = 0
    while n < len(want) and n < len(got) and want[n] == got[n]:
        n += 1
    return 'output differs at byte %d: expected %r, got %r' % (n, want[max(0, n - 30):n + 60], got[max(0, n - 30):n + 60])


def references(got, want):
    """The numbers of the references of REFC are not known before the run: the same is always the same, and no two are one."""
    parts = re.split('(88888888888888[0-9]{5})', want)
    if len(parts) == 1:
        return got
    m = re.fullmatch(''.join('([0-9]+)' if i % 2 else re.escape(x) for i, x in enumerate(parts)), got, re.S)
    if not m:
        return got
    a = {}
    for mark, g in zip(parts[1::2], m.groups()):
        if a.setdefault(mark, g) != g:
            return got
    if len(set(a.values())) != len(a):
        return got
    return want


def judge(case, ex, variant=None):
    """Run a case and compare the outcome with what the model says."""
    ex.clean()
    for n, d in case['files'].items():
        ex.put(n, d)
    r = ex.run(case['args'], case.get('stdin', ''), case.get('env'), variant=variant)
    if r.hung or r.sig:
        return 'expected exit code %d, but the program %s; stderr %r' % (case['code'], r.end(), r.err[:300])
    if references(r.out, case['out']) != case['out']:
        return diff(case['out'], r.out)
    if r.code != case['code']:
        return 'expected exit code %d, got %s' % (case['code'], r.end())
    for n, d in (case.get('after') or {}).items():
        got = ex.get(n)
        if got != d:
            return 'file %s: expected %r, got %r' % (n, d, got)
    if 'unimp' in case:
        lines = [l for l in r.err.split('\n') if l.startswith('Unimplemented')]
        if lines != case['unimp']:
            return 'diagnostics: expected %r, got %r' % (case['unimp'], lines)
    return None


class FungeProp(Prop):
    """A property decided by running generated programs in the interpreter and in the model."""
    stats_needed = ()

    def check(self, case, ex):
        return judge(case, ex)

    def labels(self, case):
        return case.get('_stats', ())

    def nontrivial(self, case):
        st = case.get('_stats', ())
        return any(s in st for s in self.stats_needed) if self.stats_needed else True

    def sample(self, case):
        return {'args': case['args'], 'files': case['files'], 'stdin': case.get('stdin', ''), 'expected': case['out'][:300],
                'code': case['code']}


def stdopt(dims, n98=True):
    """The standard; four dimensions follow from the text."""
    return [] if dims > 3 else ['-std=' + {1: 'un', 2: 'b', 3: 'tr'}[dims] + ('e98' if n98 else 'e93')]


def std_args(cfg, extra=()):
    a = ['-fno-execute', '-fno-filesystem'] if not cfg.execute and not cfg.filesystem else (
        ['-fno-execute'] if not cfg.execute else (['-fno-filesystem'] if not cfg.filesystem else []))
    return a + list(extra)


def make(cfg, dims_given, args, text, stdin='', files=None, fingers=None, name='p.b98', tail=(), env=None, K=None, after=(),
         wild=False, **kw):
    """Finish a case: the expected outcome comes from a second run of the model, on the text."""
    cfg.args = [name] + list(tail)
    cfg.env = ['%s=%s' % kv for kv in (env or {}).items()]
    cfg.dims_given = dims_given
    code, m = rerun(cfg, text, stdin, files, fingers, K=K, wild=wild, **kw)
    fs = {name: text}
    fs.update(files or {})
    case = {'files': fs, 'args': list(args) + [name] + list(tail), 'stdin': stdin, 'env': dict(env or {}),
            'out': m.stdout(), 'code': code, '_stats': dict(m.stats), '_model': m}
    if cfg.filesystem:
        case['after'] = {n: d for n, d in m.files.items()}
    return case
