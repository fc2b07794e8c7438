from lib.gen98 import *
from lib import items as I
from lib.fingers import FINGERS, fpid
from lib.model98 import Model
from lib.ways import ways

COMMANDS = {':': (0, None), 'exit 3': (768, None), 'true': (0, None), 'false': (256, None), ':>made': (0, ('made', '')), 'echo k>out': (0, ('out', 'k\n')),
            'rm a': (None, ('a', None)), 'exit 0': (0, None), ':>a': (0, ('a', ''))}
PERL = {'42': (42, None), '6*7': (42, None), '0': (0, None), '300': (44, None), 'open(F,">perl");5': (5, ('perl', '')),
        'unlink("a")?1:2': (None, ('a', None))}


def effect(m, e):
    if e:
        n, d = e
        if d is None:
            return m.files.pop(n, None) is not None
        m.files[n] = d
    return True


def system(m, cmd):
    if cmd not in COMMANDS:
        raise OutOfDomain('command')
    code, e = COMMANDS[cmd]
    ok = effect(m, e)
    return code if code is not None else (0 if ok else 256)


def perl(m, code):
    if code not in PERL:
        raise OutOfDomain('command')
    r, e = PERL[code]
    ok = effect(m, e)
    m.count('perl')
    return r if r is not None else (1 if ok else 2)


Model.system = system
Model.perl = perl


def zstr(s):
    out = '0"'
    for ch in reversed(s):
        out += '"\'""' if ch == '"' else ch
    return out + '"'


def execute(lz, m, ip):
    return zstr(lz.src.pick(sorted(COMMANDS))) + '='


def runperl(lz, m, ip):
    return zstr(lz.src.pick(sorted(PERL))) + lz.src.pick('IIE')


def fout(lz, m, ip):
    return '51' + '0' * (m.dims - 2) + vec([lz.src.int(0, 3) for _ in range(m.dims)]) + '0' + zstr(lz.src.pick(['a', 'new', 'made'])) + 'o'


def fin(lz, m, ip):
    return vec([lz.src.int(5, 9) for _ in range(m.dims)]) + '0' + zstr(lz.src.pick(['a', 'new', 'none'])) + 'i'


class P(FungeProp):
    id = 'C11'
    rule = ('Programs that use = (with commands that only write in the scratch directory or return a code), i, o, t and the instructions of PERL, under '
            'every combination of -fno-execute, -fno-filesystem and -fno-concurrent, in Funge-98 and Funge-93; output, stacks, exit code, the flags of '
            'y and all files afterwards are compared with a model in which what is switched off reflects and does nothing. Non-trivial: one of '
            'these instructions was executed.')
    quick = 8000
    thorough = 80000
    quick_time = 60
    stats_needed = ('denied', 'exec', 'perl', 'filein', 'fileout', 'thread')

    def gen(self, src):
        n98 = src.n(8) != 7
        dims = src.weighted([(6, 2), (2, 3)]) if n98 else 2
        topo = 'lahey'
        ex, fs, co = src.bool(), src.bool(), src.bool()
        cfg = Config(dims=dims, std=98 if n98 else 93, topo=topo, strings='sgml' if n98 else 'multispace', cells='int' if n98 else 'char',
                     execute=ex, filesystem=fs, concurrent=co, K=4)
        args = [a for a, on in (('-fno-execute', ex), ('-fno-filesystem', fs), ('-fno-concurrent', co)) if not on]
        args = src.perm(args)
        withperl = n98 and src.n(5) == 0
        if withperl:
            args.append('-lPERL')
            cfg.fingerprints = [fpid('PERL')]
        files = {'a': src.pick(['', 'xy', 'q\n1'])}
        if n98 and src.n(3) == 2:
            # many IPs try it
            cfg.dims = dims = 2
            args.append('-std=be98')
            extra = ['#@n":"=.', '#@n":"=', '#@n"a>:"=', '#@n"a"o', '#@n"a"i', '#@n"wen"o', '1y.', '#@=', '#@n"eurt"=.', '#@n"eslaf"=.']
            if withperl:
                extra += ['#@n"24"I.', '#@n"24"E.', '#@n"7*6"I.', '#@n"24"Izz', '#@I', 'S.'] * 2
            case = make(cfg, True, args, ways(src, extra, quiet=src.n(3)), files=files, fingers=FINGERS, K=4)
            case['after'] = {n: case['_model'].files.get(n) for n in ('a', 'new', 'made', 'out', 'perl')}
            case['_stats']['many'] = 1
            return case
        box = {2: (500, 3), 3: (500, 3, 2)}[dims]
        t = [(4, execute), (4, fout), (4, fin), (3, I.thread), (3, I.show), (1, I.digit), (1, 'z'), (1, I.shuffle)]
        if n98:
            t.append((2, I.yquery(1)))
            t.append((1, lambda lz, m, ip: lz.src.pick('=io')))
        if withperl:
            t += [(3, runperl), (1, 'S')]
        q = [I.yquery(1)] if n98 else []
        text, m, lz = build(src, cfg, box, t, src.pick([40, 80, 150]), space=0, files=files, fingers=FINGERS, queries=q)
        std = {2: 'b', 3: 'tr'}[dims] + ('e98' if n98 else 'e93')
        args += ['-std=' + std] + ([] if n98 else ['-ftopo=lahey'])
        cfg.filesystem, keep = True, cfg.filesystem
        cfg.filesystem = keep
        case = make(cfg, True, args, text, files=files, fingers=FINGERS, K=4)
        case['after'] = {n: case['_model'].files.get(n) for n in ('a', 'new', 'made', 'out', 'perl')}
        case['_stats']['%s%s%s' % ('x' if ex else '-', 'f' if fs else '-', 'c' if co else '-')] = 1
        return case


PROP = P()
