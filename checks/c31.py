from lib.fpgen import *
from lib.fingers import Finger, finger
from lib.model98 import UNSPEC, NOTAVAIL, good_name

NAMES = ['a', 'b', 'c d', 'x.y', 'dir-with-a-long-name', 'f', 'g']


class DirModel(Model):
    """Directories as a dictionary from tuples of names to None, or to the contents of a file."""

    def __init__(self, cfg, field, stdin='', files=None, fingers=None):
        self.tree = {(): None}
        self.wd = ()
        for n, d in (files or {}).items():
            parts = tuple(n.split('/'))
            for i in range(1, len(parts)):
                self.tree[parts[:i]] = None
            self.tree[parts] = d
        Model.__init__(self, cfg, field, stdin, files, fingers)
        self.files = Names(self)

    def walk(self, path):
        """Where a path leads: (directory, last name) or None. Only the last part may be missing."""
        if any(c < ' ' or c > '~' for c in path) or path.startswith('/') or len(path) > 150:
            raise OutOfDomain('path')
        if not path:
            return None
        at = self.wd
        parts = path.split('/')
        while len(parts) > 1 and not parts[-1]:
            parts.pop()
        for i, p in enumerate(parts):
            if at is None or at not in self.tree or self.tree[at] is not None:
                return None
            if p in ('', '.'):
                continue
            if p == '..':
                if not at:
                    raise OutOfDomain('out of the scratch directory')
                at = at[:-1]
                continue
            at = at + (p,)
        return at

    def isdir(self, at):
        return at in self.tree and self.tree[at] is None

    def children(self, at):
        return [k for k in self.tree if len(k) == len(at) + 1 and k[:len(at)] == at]


class Names:
    """The files as i and o see them, from where the IP is."""

    def __init__(self, m):
        self.m = m

    def get(self, name):
        at = self.m.walk(name)
        if at is None or name.endswith('/'):
            return None
        return self.m.tree.get(at)

    def __setitem__(self, name, data):
        at = self.m.walk(name)
        if at in self.m.tree and self.m.tree[at] is None:
            raise OutOfDomain('a directory')
        self.m.tree[at] = data

    def items(self):
        return [('/'.join(k), v) for k, v in sorted(self.m.tree.items()) if v is not None]


@finger('DIRF')
class DIRF(Finger):
    def do_C(self, m, ip, st):
        path = m.popstr(st)
        if not hasattr(m, 'tree'):
            raise OutOfDomain('directories')
        at = m.walk(path)
        if at is None or not m.isdir(at):
            m.count('no change')
            return UNSPEC
        m.wd = at
        m.count('changed')

    def do_M(self, m, ip, st):
        path = m.popstr(st)
        if not hasattr(m, 'tree'):
            raise OutOfDomain('directories')
        at = m.walk(path)
        if at is None or at in m.tree or not m.isdir(at[:-1]):
            m.count('not made')
            return UNSPEC
        if path.rstrip('/').split('/')[-1] in ('.', '..'):
            raise OutOfDomain('name')
        m.tree[at] = None
        m.count('made')

    def do_R(self, m, ip, st):
        path = m.popstr(st)
        if not hasattr(m, 'tree'):
            raise OutOfDomain('directories')
        at = m.walk(path)
        if at is None or not m.isdir(at) or m.children(at) or path.rstrip('/').split('/')[-1] in ('.', '..'):
            m.count('not removed')
            return UNSPEC
        if at == m.wd[:len(at)]:
            raise OutOfDomain('where it is')
        del m.tree[at]
        m.count('removed')


def path(lz, m):
    """Mostly one that leads somewhere."""
    src = lz.src
    k = src.n(10)
    if k < 4 and m.children(m.wd):
        s = src.pick(sorted(m.children(m.wd)))[-1]
        if k == 3:
            s += '/' + src.pick(NAMES)
        return s
    if k < 7:
        return src.pick(NAMES)
    if k == 7 and m.wd:
        return src.pick(['..', '../' + src.pick(NAMES), '..', '../' + m.wd[-1], '../.'])
    return src.pick(['', '.', './' + src.pick(NAMES), src.pick(NAMES) + '/', src.pick(NAMES) + '/../' + src.pick(NAMES) if src.n(2) else 'q/z', src.pick(NAMES) + '/./' + src.pick(NAMES)])


def act(lz, m, ip):
    op = lz.src.pick('MMMCCCRRR')
    if op == 'R' and lz.src.n(4):
        empty = [k[-1] for k in m.children(m.wd) if m.isdir(k) and not m.children(k)]
        if empty:
            return strcode(lz.src.pick(empty)) + 'R'
    return strcode(path(lz, m)) + op


def name(lz, m):
    return lz.src.pick(['f', 'g', 'h', 'a'])


def fin(lz, m, ip):
    return vec([lz.src.int(0, 4)] + [lz.src.pick([6, 7])] + [0] * (m.dims - 2)) + '0' + strcode(name(lz, m)) + 'i' + lz.src.pick(['', '....'])


def fout(lz, m, ip):
    src = lz.src
    return vec([src.int(1, 5), 1] + [1] * (m.dims - 2)) + vec([src.int(0, 9), src.pick([0, 6, 7])] + [0] * (m.dims - 2)) + src.pick('01') + strcode(name(lz, m)) + 'o'


def get(lz, m, ip):
    return vec([lz.src.int(0, 6), lz.src.pick([6, 7])] + [0] * (m.dims - 2)) + 'g.'


def roma(lz, m, ip):
    """A fingerprint of the library, from wherever it is."""
    return loadcode('ROMA') + 'V.' + unloadcode('ROMA') + '$$'


class P(FpProp):
    id = 'C31'
    rule = ('Programs that make, enter and remove directories with DIRF between writing and reading files there, with paths that exist and that do not, of files, of full directories, with . and .. and slashes; what reflects, '
            'what is read, and the tree of files and directories afterwards are compared with a model. All in a scratch directory, as an unprivileged user. Non-trivial: a directory was made, entered or removed.')
    quick = 8000
    thorough = 100000
    quick_time = 60
    names = [(1, 'DIRF')]
    ops = {'DIRF': [(9, way_out(act)), (2, way_out(fin)), (3, way_out(fout)), (2, get), (1, roma), (1, I.begin), (1, I.end)]}
    base = [(2, I.show), (1, I.digit), (1, I.shuffle)]
    dims = ((6, 2), (1, 3))
    box = {2: (500, 4), 3: (400, 3, 2)}
    draws = (150, 300, 600)
    K = 4
    stats_needed = ('made', 'changed', 'removed')

    def config(self, src, dims):
        cfg = Config(dims=dims, K=4, filesystem=src.n(4) > 0)
        cfg.model = DirModel
        return cfg

    def files(self, src):
        fs = {}
        for n in ('f', 'a/g', 'b/f', 'b/c d/g', 'x.y/h'):
            if src.n(3) == 2:
                fs[n] = ''.join(src.pick('abc12 +\n') for _ in range(src.int(1, 8)))
        return fs

    def finish(self, cfg, args, text, stdin, files, fin):
        case = make(cfg, True, args, text, stdin, files, fin, K=4)
        m = case['_model']
        case['tree'] = sorted('/'.join(k) + ('' if v is not None else '/') for k, v in m.tree.items() if k)
        case['after'] = dict(m.files.items())
        return case

    def check(self, case, ex):
        import os
        msg = judge(case, ex)
        if msg:
            return msg
        got = []
        for d, dirs, fs in os.walk(ex.cwd):
            r = os.path.relpath(d, ex.cwd)
            r = '' if r == '.' else r + '/'
            got += [r + x + '/' for x in dirs] + [r + x for x in fs]
        got = sorted(g for g in got if g != 'p.b98')
        if got != case['tree']:
            return 'directories and files: expected %r, got %r' % (case['tree'], got)
        return None

    def nontrivial(self, case):
        return any(s in case['_stats'] for s in self.stats_needed)


PROP = P()
