from lib.gen98 import *
from lib import items as I
from lib.fpgen import loadcode, strcode
from lib.fingers import FINGERS
from lib.multi import MultiModel

W = 260                # columns of a block of code
DATA = 8               # rows of data
STORE = 30             # rows of what is copied into new universes
PLANE = 100            # row y of plane z has the number y + PLANE * z


class Path:
    """Writes the code of one IP into the cells of the universes it goes through."""

    def __init__(self, comp, u, x, y, rows):
        self.c, self.u, self.x, self.y, self.rows = comp, u, x, y, rows
        self.next = {}
        self.modes = {}

    def room(self, n):
        return self.x + n < W - 60

    def text(self, s):
        for ch in s:
            self.c.cell(self.u, self.x, self.y, ch)
            self.x += 1

    def guarded(self, ch, mark):
        """An instruction that may reflect, then a digit is shown. Goes on where the instruction leads."""
        x, y = self.x, self.y
        u = self.u
        self.text('#v' + ch)
        for i, k in enumerate('>%d.^' % mark):
            self.c.cell(u, x + 1 + i, y + 1, k)
        self.c.cell(u, x + 4, y, '>')

    def after(self):
        self.text('z>')


class Comp:
    def __init__(self, src, unis, dims):
        self.src = src
        self.unis = unis      # list of dicts: name, dims, made (created by B), cells
        self.used = {}

    def cell(self, u, x, y, ch):
        if not 0 <= x < W:
            raise Discard('no room')
        c = self.unis[u]['cells']
        old = c.get((x, y))
        if old is not None and old != ch:
            raise Discard('overlap')
        c[x, y] = ch

    def free(self, u, x, y):
        c = self.unis[u]['cells']
        return all((a, b) not in c for a in range(x - 1, x + 14) for b in (y, y + 1))


class P(FungeProp):
    id = 'C26'
    rule = ('Programs of several universes, from an .fmv file or made with MVRS: IPs make universes, copy code and data into them and out of them, move to and fro with and without a new place and '
            'direction, read and write cells, ask for their universe, its bounds and the number of universes, name universes that are not there. Names, arguments, cells, positions, '
            'reflections and the exit code are compared with a model; with several IPs the bytes in any order. Each case is run twice. Non-trivial: an IP moved to another universe, or cells were copied between two.')
    quick = 12000
    thorough = 150000
    quick_time = 60
    wall = 20.0
    stats_needed = ('moved', 'from', 'to')

    def gen(self, src):
        many = src.n(4) == 3
        dims = src.weighted([(6, 2), (1, 3)])
        fmv = src.n(3) > 0
        nfile = src.int(1, 3) if fmv else 0
        concurrent = many or src.n(4) > 0
        execute, filesystem = src.bool(), src.bool()
        unis = []
        lines = []
        names = []
        files = {}
        sub = 'd/' if fmv and src.n(4) == 3 else ''
        tail = [src.pick(['x', '1', 'two']) for _ in range(src.n(3))]

        def unique(n):
            k, a = n, 1
            while k in names:
                k = '%s.%d' % (n, a)
                a += 1
            names.append(k)
            return k
        # with -std= the names say nothing more, without it each file has a standard of its own
        std = not fmv or dims != 2 or src.n(3) > 0
        self.tail = ([sub + 'm.fmv' if fmv else 'a.b98'] + tail)
        for i in range(nfile):
            f = src.pick(['b.b98', 'c.b98', 'e.b98'] + (['b.bf', 'c.fish', 'c.sf', 'e.bf'] if src.n(2) else [])) if i == 0 or src.n(3) else lines[-1][0]
            args = [src.pick(['u', '22', '-x']) for _ in range(src.n(3))]
            lines.append((f, args))
            shared = next((x for x in unis if x['file'] == f), None)
            unis.append({'name': unique(sub + f), 'dims': dims, 'made': False, 'file': f, 'args': args, 'cells': shared['cells'] if shared else {(0, 0): ';' if f[1:] in ('.fish', '.sf') and not std else '@', (2, DATA): 'D'}, 'ready': True})
        home = 'a.b98' if not fmv or not std else src.pick(['a.b98', 'a.b98', 'a.bf', 'a.fish', 'a.sf'])
        a = {'name': unique(sub + home), 'dims': dims, 'made': False, 'file': home, 'args': [src.pick(['u', '22']) for _ in range(src.n(2) if fmv else 0)], 'cells': {}, 'ready': True}
        home = len(unis)
        unis.append(a)
        lines.append((a['file'], a['args']))
        if not std:
            a['cells'][3, DATA] = 'd'
        c = Comp(src, unis, dims)
        for u in unis:
            for _ in range(src.n(10)):
                u['cells'][src.n(30), src.int(DATA, DATA + 4)] = src.pick('abcXYZ0189.,#')
        p = Path(c, home, 0, 0, (0, 2, 4))
        self.moded = not many and src.n(3) == 0
        p.text((loadcode('MODE') + '$$' if self.moded else '') + loadcode('MVRS') + src.pick(['', '$$']))
        self.names = names
        if many:
            self.many(src, c, p, home, unique)
        else:
            self.one(src, c, p, home, unique, concurrent)
        # what is copied into new universes
        for k, u in enumerate(unis):
            if u['made']:
                for (x, y), ch in u['cells'].items():
                    if y > 5:
                        raise Discard('row')
                    unis[u['by']]['cells'][x, u['store'] + y] = ch
        flags = [x for x, on in (('-fno-concurrent', concurrent), ('-fno-execute', execute), ('-fno-filesystem', filesystem)) if not on]
        if std:
            flags.append('-std=' + ('be98' if dims == 2 else 'tre98'))
        main = sub + 'm.fmv' if fmv else 'a.b98'
        start = []
        for u in unis:
            if u['made']:
                continue
            f = Field(3)
            f.c = {(x, y % PLANE, y // PLANE): ord(ch) for (x, y), ch in u['cells'].items() if ch != ' '}
            text = f.text()
            files[sub + u['file']] = text
            field, d = load_text(text, dims, 'int', 3)
            kind = u['file'][2:] if not std else 'b98'
            if sub and src.n(2):
                # another one of that name, where the program is run
                files[u['file']] = src.pick(['"X",q', '8q', '@', ';'])
            start.append((u['name'], Config(dims=dims, K=3, std={'bf': 93}.get(kind, 98), strings='multispace' if kind in ('fish', 'sf') else 'sgml', concurrent=concurrent, execute=execute, filesystem=filesystem, args=[main] + tail + u['args']), field))
        cfg = Config(dims=dims, K=3)
        cfg.uni = start
        m = MultiModel(cfg, start[-1][2], '', {}, FINGERS)
        m.max_moves = 200000
        try:
            code = m.run(30000)
        except (OutOfDomain, Budget) as e:
            raise Discard(str(e))
        if fmv:
            files[main] = ''.join(' '.join([f] + args) + src.pick(['\n', '\n', '\n\n', ' \n']) for f, args in lines)
        case = {'files': files, 'args': flags + [main] + tail, 'out': m.stdout(), 'code': code, 'unimp': sorted(m.err), '_stats': dict(m.stats), '_model': m, 'any': many}
        if many:
            case['_stats']['many'] = 1
        return case

    # -- pieces
    def where(self, src, c, ready=True, missing=True):
        """The name of a universe, and its number if there is one."""
        if missing and src.n(8) == 7:
            return src.pick(['zz', 'a', 'b.b98.7', '', 'A.b98']), None
        l = [i for i, u in enumerate(c.unis) if u['ready']]
        i = src.pick(l)
        return c.unis[i]['name'], i

    def create(self, src, c, p, unique):
        u = c.unis[p.u]
        if u['made'] or not p.room(110) or len(c.unis) > 6:
            return False
        base = src.pick(['n', 'u1', 'w-w', 'b.b98', 'a.b98'])
        dim = 0 if src.n(3) else src.int(1, 3)
        name = unique(base)
        k = sum(1 for x in c.unis if x['made'])
        lng = src.n(3)
        mode = src.pick('QI') if self.moded and not src.n(3) else ''
        if mode:
            # first in, first out
            p.text('n' + mode + num(dim) + num(lng) + '0"%s"0' % base)
        else:
            p.text(strcode(base) + '0' + num(lng) + num(dim))
        p.guarded('B', 1)
        p.after()
        if mode:
            p.text('n' + mode)
            p.modes[len(c.unis)] = mode
        store = STORE + 8 * k
        new = {'name': name, 'dims': dim or u['dims'], 'made': True, 'file': None, 'cells': {}, 'ready': True, 'store': store, 'by': p.u}
        c.unis.append(new)
        D = u['dims']
        p.text(strcode(name) + '000' + vec((0, store, 0)[:D]) + vec((W - 1, 5, 0)[:D]) + 'P')
        return True

    def target(self, src, c, p, i, rows):
        """A place in universe i where an IP can go on."""
        if len(rows) > 1 and c.unis[i]['dims'] == 3 and not c.unis[i]['made'] and src.n(2):
            rows = tuple(r + PLANE * z for r in rows for z in (1, 2))
        for _ in range(12):
            x, y = src.int(4, W - 120), src.pick(rows)
            if c.free(i, x, y) and all(c.free(i, x + k, y) for k in (20, 50)):
                return x, y
        return None

    def ahead(self, c, i, x, y, n=14):
        cells = c.unis[i]['cells']
        return all((a, b) not in cells for a in range(x, x + n) for b in (y, y + 1))

    def settle(self, src, p):
        """The modes of this universe are still those it was left with."""
        mode = p.modes.get(p.u, '')
        if mode:
            p.text('n' + ''.join(num(src.int(0, 9)) for _ in range(src.int(2, 4))) + src.pick(['..', '.', '\\..', ':..']) + 'n' + ''.join(mode))
            p.modes[p.u] = ''

    def modehop(self, src, c, p):
        """Leave a universe in other modes than it was entered, or try to."""
        name, i = self.where(src, c)
        mode = src.pick(['Q', 'I', 'Q', 'I', 'QI', 'IQ'])
        s = 'n' + mode
        if len(mode) == 1:
            # first in, first out
            s += ('"%s"' % name if name else '') + '0'
        else:
            s += strcode(name)
        if not p.room(90) or i is not None and i != p.u and (not self.ahead(c, i, p.x + len(s), p.y, 60) or p.y >= PLANE and c.unis[i]['dims'] < 3):
            return False
        p.text(s)
        p.modes[p.u] = mode
        p.guarded('J', 2)
        if i is not None:
            p.u = i
        p.after()
        self.settle(src, p)
        return True

    def hop(self, src, c, p, rows):
        name, i = self.where(src, c)
        if not p.room(70):
            return False
        if src.n(2):
            n = len(strcode(name)) + 2
            if i is not None and i != p.u and (not self.ahead(c, i, p.x + n, p.y, 40) or p.y >= PLANE and c.unis[i]['dims'] < 3):
                return False
            p.text(strcode(name))
            p.guarded('J', 2)
            if i is not None:
                # goes on at the same place of the other universe
                p.u = i
            p.after()
            self.settle(src, p)
            return True
        if i is None:
            p.text(strcode(name) + '000100')
            p.guarded('G', 3)
            p.after()
            return True
        t = self.target(src, c, p, i, rows)
        if t is None:
            return False
        x, y = t
        z = y // PLANE
        d = src.pick([(1, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 0), (0, -1, 0), (-3, 0, 0), (3, 2, 0)] + ([(0, 0, 1), (0, 0, -2), (1, 1, 1)] if z else []))
        code = strcode(name) + vec((x - d[0], y % PLANE - d[1], z - d[2])) + vec(d) + 'G'
        if i == p.u and y == p.y and p.x <= x + 60 and x <= p.x + len(code) + 60:
            return False
        p.text(code)
        p.u, p.x, p.y = i, x, y
        p.text('>')
        if self.moded:
            self.settle(src, p)
        return True

    def local(self, src, c, p, plain=False):
        k = src.n(8 if plain else 16)
        D = c.unis[p.u]['dims']
        if not p.room(60):
            return
        if k < 2:
            p.text(num(src.int(0, 99)) + '.')
        elif k < 4:
            p.text('N>:#,_$')
        elif k == 4:
            p.text('C.')
        elif k == 5:
            p.text(num(src.pick([1, 7, 8] + list(range(10, 10 + 2 * D)))) + 'y.')
        elif k == 6:
            p.text(strcode(src.pick(['zz', ''])))
            p.guarded(src.pick('J'), 4)
            p.after()
        elif k == 7:
            p.text(strcode('q') + num(src.pick([0, 1, 5, 255])) + num(src.pick([3, 7, 9])) + '0')
            p.guarded('B', 5)
            p.after()
        elif k < 11:
            at = (src.n(30), src.int(DATA, DATA + 4) if D > 1 else 0, 0)[:D]
            if D == 1:
                at = (src.int(-9, -1),)
            if k < 10:
                p.text(num(src.int(0, 300)) + vec(at) + 'p')
            p.text(vec(at) + 'g.')
        elif k == 14:
            p.text(src.pick([num(src.int(0, 99)) + ':', num(src.int(0, 99)), '.', '1{', '1}', '2{', '0}', '..', 'n', '06-{']))
        elif k == 13:
            # the arguments
            u = c.unis[p.u]
            n = sum(len(t) + 1 for t in self.tail + u['args']) if not u['made'] else 2
            for _ in range(src.int(1, 4)):
                if p.room(12):
                    p.text(num(13 + 5 * D + src.int(1, n)) + 'y.')
        elif k == 15:
            p.text(strcode(src.pick(['exit 0', 'exit 1', 'exit 7'])))
            p.guarded('=', 9)
            p.after()
            p.text('.')
        elif k == 11:
            p.text(num(src.pick([1, 2, 8] + list(range(10 + 3 * D, 10 + 5 * D)))) + 'y.')
        else:
            self.copy(src, c, p)

    def copy(self, src, c, p):
        name, i = self.where(src, c)
        D = c.unis[p.u]['dims']
        if not p.room(100):
            return
        w, h = src.int(-2, 5), src.int(-1, 2)
        def data(d):
            return (src.int(2, 25), src.int(DATA + 1, DATA + 2) if d > 1 else 0, 0) if d > 1 else (src.int(-20, -10), 0, 0)
        size = (w, h, 0)[:D]
        here, there = data(D), data(c.unis[i]['dims'] if i is not None else 2)
        if D == 1 and here[0] + w >= 0 or there[1] == 0 and h:
            return
        if src.n(2):
            p.text(strcode(name) + vec(here[:D]) + vec(there) + vec(size))
            p.guarded('F', 6)
            p.after()
            for _ in range(src.n(3)):
                if p.room(30):
                    p.text(vec((here[0] + src.int(min(0, w) - 1, max(0, w) + 1), here[1] + src.int(min(0, h), max(0, h)), 0)[:D]) + 'g.')
        else:
            p.text(strcode(name) + vec(there) + vec(here[:D]) + vec(size))
            p.guarded('P', 7)
            p.after()

    def one(self, src, c, p, home, unique, concurrent):
        for _ in range(src.int(2, 24)):
            k = src.n(10)
            if self.moded and src.n(4) == 3:
                self.modehop(src, c, p)
            elif k < 5:
                self.local(src, c, p)
            elif k < 9:
                self.hop(src, c, p, (0, 2, 4))
            elif k == 9 and src.n(2):
                self.create(src, c, p, unique)
            elif not concurrent and p.room(10):
                p.guarded('t', 8)
                p.after()
        p.text(src.pick(['@', '@', '.@', 'N,@', '7q', '093*-q']))

    def many(self, src, c, p, home, unique):
        for _ in range(src.int(0 if len(c.unis) > 1 else 1, 2)):
            self.create(src, c, p, unique)
        n = src.int(1, 2)
        # the children go down to the rows 4 and 2
        rows = [4, 2][:n] if n == 2 else [src.pick([2, 4])]
        paths = []
        for r in rows:
            x = p.x
            p.text('#vt')
            for y in range(1, r):
                c.cell(home, x + 1, y, ' ')
            q = Path(c, home, x + 1, r, (r,))
            q.text('>')
            paths.append((q, r))
        paths.append((p, 0))
        for q, r in paths:
            for _ in range(src.int(2, 16)):
                if src.n(2):
                    self.local(src, c, q, True)
                else:
                    self.hop(src, c, q, (r,))
            q.text('@')

    def check(self, case, ex):
        for _ in range(2):
            ex.clean()
            for n, d in case['files'].items():
                ex.put(n, d)
            r = ex.run(case['args'])
            if r.hung or r.sig or r.code != case['code']:
                return 'expected exit code %d, but the program %s; stderr %r' % (case['code'], r.end(), r.err[:300])
            if (sorted(r.out) != sorted(case['out'])) if case['any'] else r.out != case['out']:
                return diff(case['out'], r.out) if not case['any'] else 'in some order %r was expected, got %r' % (case['out'][:400], r.out[:400])
            lines = sorted(l for l in r.err.split('\n') if l.startswith('Unimplemented'))
            if lines != case['unimp']:
                return 'diagnostics: expected %r, got %r' % (case['unimp'], lines)
        return None


PROP = P()
