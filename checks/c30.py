import os
import shutil
from lib.fpgen import *
from lib.funglib import library, TERM
from lib.model98 import OutOfDomain

NAMECHARS = 'ABCDXYZabcz019-_'
ODD = NAMECHARS + '.. +(~\xe9;'
BUILTIN = {'BOOL': 'AONX', 'ORTH': 'AOEGPSVWXYZ', 'NULL': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'ROMA': 'IVXLCDM', 'TERM': 'CDGHLSU', 'FING': 'XYZ', 'MODE': 'HIQS'}


def odd(src):
    """A name that is unusual for a file."""
    return ''.join(src.pick(ODD) for _ in range(src.int(1, 8))).replace('  ', ' a')


def dvec(src, lo=-2, hi=9):
    return num(src.int(lo, hi)) + num(src.int(0, 3)) + '0'


def code(src, names, depth=0):
    """Straight code for one letter, without the end."""
    out = []
    for _ in range(src.pick([1, 2, 3, 5, 8, 12])):
        k = src.n(26)
        if k < 3:
            s = num(any_int(src)) if src.n(2) else src.pick('0123456789')
        elif k < 6:
            s = src.pick('+-*:\\$%/!`n')
        elif k < 7:
            s = src.pick(['.', ',', ':.'])
        elif k < 8:
            s = src.pick('FRER')
        elif k < 9:
            s = src.pick(['F', 'NF', 'NF', 'FF', 'RF', 'BF', 'BR', 'B#'])
        elif k < 10:
            s = num(src.int(-1, 5)) + 'K'
        elif k < 11:
            s = num(src.int(-4, 5)) + 'O'
        elif k < 12:
            s = src.pick(['E', 'M', 'M', 'N', 'E.'])
        elif k < 13:
            s = 'Q' if src.n(2) else src.pick(['E5`k$', 'nE'])
        elif k < 14:
            s = dvec(src) + 'S'
        elif k < 15:
            s = dvec(src) + 'G'
        elif k < 16:
            s = src.pick(['', num(src.pick([62, 60, 118, 94, 48, 46, 64, 65, 66]))]) + dvec(src) + 'P'
        elif k < 17:
            s = src.pick(['100', '01-00', '010', '001-0', '110', '200', '300', 'RR', '20001-']) + 'D'
            if s == 'RRD':
                s = 'RR'
        elif k < 18:
            s = num(src.int(0, 60)) + num(src.n(3)) + '0L'
        elif k < 19:
            # a cell that keeps its value from call to call
            a = src.pick(['30' + num(src.n(26)), '70' + num(src.n(26)), '92' + num(src.n(3))])
            s = a + 'g:.1+' + a + 'p'
        elif k < 20:
            s = src.pick(['2{', '0{', '1}', '0}', '1u', '01-u', '3{$', '01-{'])
        elif k < 21:
            s = src.pick(["'a", "'z,", '0"ba"', '"a  b"', '2k:', '3k$', '4k.', '0k1', '7k*'])
        elif k < 22:
            s = num(src.pick([5, 7, 8, 6, 10, 11, 12, 13, 14, 15, 16, 22, 23])) + 'y'
            if src.n(2):
                s += '.'
        elif k < 23:
            s = src.pick(['t', 't', 'tE.', 't1.', ';ab;', '1j9', '#7', 'z', '2kz'])
        elif k < 24 and names:
            n = src.pick(names)
            s = loadcode(n) + src.pick('ABCDXMQ') + unloadcode(n) + src.pick(['', '$$'])
        elif k < 25:
            s = src.pick(['r', 'Z', 'X', 'h', 'l', 'w', '?', '~', '&', '@'])
            if s == '?':
                s = '1'
        else:
            s = src.pick(['!#v_', '1#v_', ':#v_', '01`#v_', 'M#v_', 'E#v_'])
        out.append(s)
    return ''.join(out)


def plane(src, names):
    """The rows of one letter."""
    k = src.n(8)
    if k == 0:
        # again and again while the counter is there
        return [':#v_$@', ' >' + ''.join(c for c in code(src, ()) if c not in 'v#_') .replace('B', '') + '1-' + src.pick(['B', '', 'F', 'R']) + '@']
    rows = [code(src, names) + '@']
    x = rows[0].find('#v_')
    if x >= 0:
        rows.append(' ' * (x + 1) + '>' + code(src, ()) + '@')
    if src.n(6) == 5:
        rows[0] = ' ' * src.n(3) + rows[0]
    if src.n(5) == 4:
        # a row that is no more than a row, though it begins like the name of a letter
        row = src.pick(['=AB', '=a', '=1', '=', '==', '=A ', '=C\r', ' =A', '=@', '=[', '=Bxy'])
        if x < 0 or x > 6:
            rows.insert(1 if src.n(3) else len(rows), row)
    return rows


def libtext(src, letters, names):
    out = []
    order = list(letters)
    for ch in order:
        out.append('=' + ch)
        out += plane(src, names)
    t = '\n'.join(out)
    return t + src.pick(['', '\n'])


class P(FpProp):
    id = 'C30'
    rule = ('Fingerprints are generated as Funge-lib files: planes of letters that compute, keep values in their own space, split, load each other, read and change the position, delta, storage, cells, stacks and '
            'end of their caller. Programs load them (by ( or -l, with fingerprints that share letters), call them with k and from several IPs, and show all stacks; compared with a model that runs the files in a universe of their own. '
            'TERM is called too, and names that lead out of the library are tried. Non-trivial: a letter written in Funge, or of TERM, ran.')
    quick = 15000
    thorough = 200000
    quick_time = 60
    dims = ((6, 2), (1, 1), (2, 3))
    K = 3
    draws = (30, 80, 140)
    stats_needed = ('lib', 'TERM')

    def gen(self, src):
        dims = src.weighted(self.dims)
        strings = src.pick(['sgml'] * 6 + ['c', 'multispace'])
        torus = dims == 2 and src.n(8) == 7
        cfg = Config(dims=dims, K=3, strings=strings, topo='torus' if torus else 'lahey')
        # the rules of the program are not those of the library
        own = (['-fstrings=' + strings] if strings != 'sgml' else []) + (['-ftopo=torus'] if torus else [])
        n = src.pick([1, 1, 2, 3])
        libs = {}
        letters = {}
        for i in range(n):
            name = src.pick(['LIBA', 'MINE', 'ABCD'][i:] + [''.join(src.pick(NAMECHARS) for _ in range(src.int(1, 8))) if src.n(4) else odd(src)])
            if name in libs or name in BUILTIN:
                continue
            letters[name] = sorted({src.pick('ABCDXYZMQ') for _ in range(src.int(1, 5))})
            if src.n(4) == 0:
                letters[name].reverse()
            libs[name] = libtext(src, letters[name], [k for k in libs])
        fin = dict(FINGERS)
        for k, t in libs.items():
            fin[fpid(k)] = library(k, t)
        chosen = list(libs)
        if src.n(3) == 0:
            chosen.append(src.pick(['TERM', 'TERM', 'ROMA', 'BOOL', 'NULL', 'MODE', 'ORTH', 'FING']))
        if src.n(12) == 11:
            chosen = ['TERM']
        byarg = src.n(3) == 0

        def call(lz, m, ip):
            k = src.pick(chosen)
            ch = src.pick(letters.get(k) or BUILTIN[k])
            s = ''.join(num(small_int(src)) for _ in range(src.n(4))) + (strcode(text(src)) if src.n(6) == 5 else '')
            return s + (num(src.n(4)) + 'k' if src.n(7) == 6 else '') + ch

        def way(lz, m, ip):
            return way_out(call)(lz, m, ip)
        table = [(10, way), (3, I.show), (2, I.digit), (1, I.const), (1, I.shuffle), (1, I.direction3), (1, I.begin), (1, I.end)]
        if src.n(3) == 0:
            table += [(1, lambda lz, m, ip: 't' if m.ids < 6 else 'z')]
        if len(chosen) > 1 or not byarg:
            table += [(2, lambda lz, m, ip: loadcode(src.pick(chosen))), (1, lambda lz, m, ip: unloadcode(src.pick(chosen)))]
        if src.n(4) == 3:
            # files that are not in the library
            table.append((2, lambda lz, m, ip: loadcode(src.pick(['../OUT', 'sub/IN', './' + src.pick(chosen)[:6], '../../x', 'sub', 'a/', '.']))))
        if byarg:
            cfg.fingerprints = [fpid(k) for k in chosen]

        def prog(lz, m):
            if not byarg:
                lz.pending[0] = list(''.join(loadcode(k) + self.keep(src) for k in chosen))
        txt, m, lz = build(src, cfg, self.box[dims], table, src.pick(self.draws), fingers=fin, prog=prog, space=1, escape=6, max_moves=8000)
        args = [a for a, on in (('-fno-execute', cfg.execute), ('-fno-filesystem', cfg.filesystem), ('-fno-concurrent', cfg.concurrent)) if not on]
        args += self.stdarg(dims) + own + (['-l' + k for k in chosen] if byarg else [])
        case = make(cfg, True, args, txt, '', {}, fin, K=3)
        case['libs'] = libs
        for k in chosen:
            if k in BUILTIN:
                case['_stats'][k] = 1
        return case

    def check(self, case, ex):
        home = os.path.join(ex.work, 'own')
        exe = os.path.join(home, 'bin', 'funge')
        fing = os.path.join(home, 'fing')
        if getattr(ex, 'owned', None) != ex.exe:
            shutil.rmtree(home, ignore_errors=True)
            os.makedirs(os.path.join(home, 'bin'))
            shutil.copy(ex.exe, exe)
            shutil.copytree(os.path.join(os.path.dirname(ex.exe), '..', 'fing'), fing)
            os.mkdir(os.path.join(fing, 'sub'))
            for n in (os.path.join(home, 'OUT.fl'), os.path.join(fing, 'sub', 'IN.fl')):
                with open(n, 'w') as f:
                    f.write('\n'.join('=%s\n1.X@' % ch for ch in 'ABCDXYZMQ'))
            ex.owned = ex.exe
        for k, t in case['libs'].items():
            with open(os.path.join(os.fsencode(fing), k.encode('latin-1') + b'.fl'), 'wb') as f:
                f.write(t.encode('latin-1'))
        old, ex.exe = ex.exe, exe
        try:
            return judge(case, ex)
        finally:
            ex.exe = old
            for k in case['libs']:
                os.unlink(os.path.join(os.fsencode(fing), k.encode('latin-1') + b'.fl'))

    def nontrivial(self, case):
        return 'lib' in case['_stats'] or any(k.startswith('TERM.') for k in case['_stats'])

    def sample(self, case):
        return dict(FungeProp.sample(self, case), libs=case['libs'])


PROP = P()
