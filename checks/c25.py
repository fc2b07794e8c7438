import importlib
import re
from lib.engine import Prop, Discard
from lib.fpgen import loadcode
from lib.fingers import FINGERS, fpid

FPS = 'BASE BITW BOOL CPLI DBUG DIRF FING FISH FIXP FPDP FPRT FPSP FRTH HRTI IIPC JSTR MODE MODU MVRS NFUN NULL ORTH PERL REFC ROMA STRN SUBR TERM TOYS'.split()
BASES = ['c02', 'c03', 'c05', 'c06', 'c07', 'c09', 'c10', 'c12', 'c14', 'c16', 'c17', 'c18', 'c19', 'c20', 'c21', 'c22', 'c23', 'c24', 'c26', 'c28', 'c30', 'c31']
SET93 = '0123456789+-*/%!`><^v?_|":\\$.,#gp&~@ '
SET98 = SET93 + "abcdef';skjxytqnurwhlmz{}[]()ioABCDEFGHIJKLMNOPQRSTUVWXYZ"
SETF = '0123456789abcdef+-*,%()=:~$@{}rl[]&noigp?!.x#/\\|_<>^v"\' ;'
SETS = SETF + 'hmsuODICRFtI`'
BIG98 = ['f1+:*', 'f1+:*:*', '0a-', '01-', 'f:*:*:*:*:*:*:*', '02:*:*:*:*:*-', '2:*:*:*:*:*:2/*', '2:*:*:*:*:*:2/*1-', "'\xff", '0', '1', '2', '3']
CMDS = ('break continue delete display get goto help info list peek print put quit run set show step thread tick undisplay watch stack storage delta position '
        'b c d g i l p q r s t w n').split()
ARGS = ['(0,0)', '1', '0', '-1', '5', '2', '99999999999999999999', '(1,2,3)', '(-3,40)', 'x', '"', '*', '(', ')', '(,', '(1', 'all', '@', 'delta', 'stack', 'storage', '', "'a'", '(1,1)', '(9,9)']
OPTS = ['-fno-concurrent', '-fno-fingerprint', '-ftopo=torus', '-ftopo=lahey', '-fstrings=c', '-fstrings=multispace', '-fstrings=sgml', '-fcells=char', '-fcells=int',
        '-finvert-hl', '-fthreads=native', '-fno-filesystem', '-std=be98', '-std=tre98', '-std=une98', '-std=be93', '-std=fish', '-std=starfish', '-g']


def rawtext(src, kind):
    """Instructions in a few rows, mostly with operands that are there."""
    cs = {'98': SET98, '93': SET93, 'fish': SETF, 'starfish': SETS}[kind]
    h = src.pick([1, 1, 2, 4, 8])
    w = src.pick([5, 20, 60, 120])
    low = src.n(4)
    rows = []
    for _ in range(h):
        row = []
        n = 0
        while n < w:
            k = src.n(40)
            if low and k < 13:
                s = src.pick('0123456789')
            elif kind == '98' and k < 16:
                s = loadcode(src.pick(FPS))
            elif k < 19:
                s = src.pick(BIG98) if kind in ('98',) else src.pick(['99*', '01-', '9:*:*:*:*:*:*'])
            elif k < 36:
                s = src.pick(cs)
            elif k < 39:
                s = ' '
            else:
                s = chr(src.n(256))
            row.append(s)
            n += len(s)
        rows.append(''.join(row))
    return src.pick(['\n', '\n', '\n', '\n', '\f', '\n\f', '\v']).join(rows) + src.pick(['', '\n', '@', '@'])


TEXTS = ['', 'a', 'x' * 70, '%s', '%d', '%n', '%s%s', '%s%d%s', '%ld%s', '%*d', '%1$s', '%5.2f%f', '%', '%%', '%.99999f', '%hhn', '%c%s', '1.5e999', '-', '99999999999999999999', 'zz', 'a/b', 'LIBA', 'b.b98', 'p.b98', '\xff\xfe', 'nan']
SMALL = ['0', '0', '1', '1', '2', '3', '5', '9', 'a', '01-', '02-', '03-', '09-', 'ff*', "'~", '0a-']


def letters(name):
    c = FINGERS.get(fpid(name))
    l = sorted(k[3] for k in dir(c) if len(k) == 4 and k.startswith('do_')) if c else []
    return l or 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def focused(src):
    """One or two fingerprints, and their instructions with operands of all kinds."""
    names = [src.pick(FPS) for _ in range(src.pick([1, 1, 2]))]
    s = ''.join(loadcode(n) for n in names)
    for _ in range(src.int(3, 25)):
        for _ in range(src.n(6)):
            k = src.n(12)
            if k < 7:
                s += src.pick(SMALL)
            elif k < 9:
                s += src.pick(BIG98)
            elif k < 11:
                s += '0"%s"' % src.pick(TEXTS)[::-1]
            else:
                s += src.pick(['t', 'n', '2{', '0{', '1}', 'r', '[', '3k', '2k', 'q', ':', '\\', '.', 'x'])
        s += src.pick(letters(src.pick(names))) + src.pick(['', '', '', '', '.', '$'])
        if src.n(12) == 11:
            n = src.pick(names)
            s += src.pick([loadcode(n), loadcode(n)[:-1] + ')'])
    rows = [s]
    if src.n(3) == 2:
        rows += [''.join(src.pick(SET98) for _ in range(src.int(1, 40))) for _ in range(src.int(1, 3))]
    return '\n'.join(rows) + src.pick(['', '@', '@\n', 'q'])


def script(src):
    return '\n'.join(' '.join([src.pick(CMDS)] + [src.pick(ARGS) for _ in range(src.n(5))]) for _ in range(src.int(1, 12))) + '\n'


def report(err):
    """What a sanitizer or the runtime says, without addresses."""
    m = re.search(r'(\S+):(\d+):\d+: runtime error: (.*)', err)
    if m:
        return 'undefined behaviour in %s: %s' % (m.group(1).split('/')[-1], m.group(3)[:150])
    m = re.search(r'ERROR: AddressSanitizer:? (.*)', err)
    if m:
        if re.search('allocation-size-too-big|out of memory|out-of-memory|calloc-overflow|requested allocation size|hard rss', err):
            return None
        fr = [x for x in re.findall(r'#\d+ 0x\S+ in (\S+).*? (?:\S*/)?(\w+\.(?:cpp|h)):\d+', err)]
        return 'AddressSanitizer: %s at %s' % (re.sub(r'0x\w+', '', m.group(1))[:80], ', '.join(f[1] for f in fr[:3]))
    if 'terminate called' in err:
        t = err[err.index('terminate called'):][:300]
        if 'bad_alloc' in t or 'length_error' in t or 'bad_array_new_length' in t:
            return None    # asked for more memory than there is
        return t.replace('\n', ' ')
    return None


class P(Prop):
    id = 'C25'
    rule = ('The interpreter is built with address and undefined behaviour sanitizers and run on rows of random instructions with operands of all sizes, on instructions of one or two fingerprints with numbers, strings and formats that do not suit them, on generated programs of the other checks with some cells, '
            'options, lines of input or files changed, on random bytes in every file format and under random scripts for the debugger. No run may end with a signal, an exception or a sanitizer report; '
            'runs are stopped after a short time, and running out of memory is allowed. Non-trivial: all but the empty program.')
    quick = 6000
    thorough = 80000
    quick_time = 150
    thorough_time = 780
    variants = ('asan',)
    limit_as = 0
    limit_cpu = 3
    wall = 0.5

    def gen(self, src):
        k = src.n(10)
        env = {}
        stdin = ''
        if k < 5:
            name = src.pick(BASES)
            p = importlib.import_module('checks.' + name).PROP
            case = p.gen(src)
            if isinstance(case, dict) and 'files' in case and 'args' in case:
                files = dict(case['files'])
                args = [a for a in case['args']]
                stdin = case.get('stdin', '')
                env = dict(case.get('env') or {})
            else:
                raise Discard('another form')
            main = [n for n in files if n in args]
            if not main:
                raise Discard('no program')
            at = args.index(main[0])
            tail = args[at:]
            args = args[:at]
            names = sorted(files)
            for _ in range(src.pick([0, 1, 1, 2, 3, 6])):
                n = src.pick(names) if src.n(3) == 2 else main[0]
                t = files[n]
                cells = [i for i, c in enumerate(t) if c not in ' \n\r\f\v']
                if not cells:
                    continue
                i = src.pick(cells)
                cs = SETS if '-std=starfish' in args else SETF if '-std=fish' in args else SET98
                m = src.n(6)
                if m < 4:
                    t = t[:i] + src.pick(cs) + t[i + 1:]
                elif m == 4:
                    t = t[:i] + t[i + 1:]
                else:
                    j = src.pick(cells)
                    t = t[:i] + t[min(i, j):max(i, j)][:30] + t[i:]
                files[n] = t
            if src.n(5) == 4:
                stdin = stdin[:src.n(len(stdin) + 1)] + src.pick(['', '\x00', '-', '99999999999999999999', '\n', script(src)])
        else:
            kind = src.pick(['98', '98', '98', 'fp', 'fp', 'fp', '93', 'fish', 'starfish', 'raw'])
            if kind == 'raw':
                t = ''.join(chr(src.n(256)) for _ in range(src.pick([0, 5, 50, 300])))
                ext, std = src.pick([('.b98', ''), ('.fl', ''), ('.beq', ''), ('.fmv', ''), ('.fish', ''), ('.b98', 'tre98'), ('.b98', 'starfish'), ('.bf', '')])
                if ext == '.beq' and src.n(2):
                    t = '\n'.join(src.pick(['=p', '=i', '=', '=p1 ', '=i1,2,3', '', '=t', '=b']) + x for x in t.split('\n')) + '\n' + t
            else:
                t = focused(src) if kind == 'fp' else rawtext(src, kind)
                if kind == 'fp':
                    kind = '98'
                ext, std = {'98': ('.b98', src.pick(['', 'une98', 'be98', 'be98', 'tre98'])), '93': ('.bf', src.pick(['', 'be93', 'une93'])),
                            'fish': ('.fish', 'fish'), 'starfish': ('.sf', 'starfish')}[kind]
                if kind == '98' and not std and src.n(3) == 2:
                    ext = '.fl'
                    t = '=A\n' + t
            files = {'p' + ext: t}
            args = ['-std=' + std] if std else []
            if kind == '98' and src.n(2):
                args += ['-l' + src.pick(FPS) for _ in range(src.int(1, 3))]
            stdin = ''.join(src.pick('0123 -+ab\n\x00\xff') for _ in range(src.pick([0, 0, 10, 50])))
            if src.n(6) == 5:
                args.append('-g')
                stdin = script(src)
            tail = ['p' + ext]
        for _ in range(src.pick([0, 0, 0, 1, 2])):
            args.append(src.pick(OPTS + ['-l' + src.pick(FPS)]))
        args = [a for a in args if a not in ('-fexecute',)] + ['-fno-execute'] + tail
        return {'files': files, 'args': args, 'stdin': stdin, 'env': env}

    def check(self, case, ex):
        ex.clean()
        for n, d in case['files'].items():
            ex.put(n, d)
        env = dict(case['env'])
        env['ASAN_OPTIONS'] = 'detect_leaks=0:hard_rss_limit_mb=1500:detect_stack_use_after_return=0:handle_abort=0'
        r = ex.run(case['args'], case['stdin'], env, wall=self.wall)
        if 'hard rss limit' in r.err:
            return None
        s = report(r.err)
        if s:
            return 'exit code %s; %s' % (r.end(), s)
        if r.sig and not r.hung and 'bad_alloc' not in r.err and 'length_error' not in r.err and 'AddressSanitizer' not in r.err:
            return 'the interpreter %s; stderr %r' % (r.end(), r.err[-300:])
        return None

    def nontrivial(self, case):
        return any(t.strip() for t in case['files'].values())

    def labels(self, case):
        return [a for a in case['args'] if a.startswith('-')]


PROP = P()
