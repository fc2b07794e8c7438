from lib.gen98 import *
from lib import items as I
from lib import fishgen as G
from lib.fingers import FINGERS, fpid
from lib.fish import FishModel, StarModel
from lib.big import also

STDS = {'une93': (1, 93), 'une98': (1, 98), 'be93': (2, 93), 'be98': (2, 98), 'tre98': (3, 98), 'fish': (2, 'fish'), 'sfish': (2, 'sfish')}
STD_DEFAULTS = {93: ('torus', 'multispace', 'char'), 98: ('lahey', 'sgml', 'int'), 'fish': ('lahey', 'multispace', 'int'), 'sfish': ('lahey', 'multispace', 'int')}
ENUMS = {'-ftopo': ('topo', ('torus', 'lahey'), 'Unsupported topology: '), '-fstrings': ('strings', ('multispace', 'sgml', 'c'), 'Unsupported strings: '),
         '-fcells': ('cells', ('char', 'int'), 'Unsupported cell size: '), '-fthreads': ('threads', ('native', 'funge'), 'Unsupported threading: ')}
FLAGS = {'concurrent': 'concurrent', 'execute': 'execute', 'filesystem': 'filesystem'}
BAD = ['', 'x', 'be97', 'Be98', 'be98 ', '98', 'befunge', 'Torus', 'int ', 'long', 'C', 'sgm', 'sgmll', 'native1', 'befunge-98', '=', 'be98=', 'tre93', 'fishy', 'none', 'lahey,torus']
IGNORED = ['-', '--', '-x', '-fno', '-f', '-std', '-ftopo', '-fstrings', '-Wall', '--help', '-fconcurrentx', '-fno-concurrents', '-finvert', '-fcells', '-G', '-gg', '-fexecute=no', '-O2', '-stdx=be93']


def parse(argv):
    """What the documentation says the command line means. Returns (settings, error)."""
    o = {'dims': 0, 'std': None, 'topo': 'lahey', 'strings': 'sgml', 'cells': 'int', 'threads': 'funge', 'concurrent': True, 'execute': True, 'filesystem': True,
         'inverthl': False, 'fingerprints': []}
    i = 0
    while i < len(argv) and argv[i][:1] == '-':
        a = argv[i]
        i += 1
        k, eq, v = a.partition('=')
        if k == '-std' and eq:
            if v not in STDS:
                return o, 'Unsupported standard: ' + v
            o['dims'], o['std'] = STDS[v]
            o['topo'], o['strings'], o['cells'] = STD_DEFAULTS[o['std']]
        elif k in ENUMS and eq:
            name, values, text = ENUMS[k]
            if v not in values:
                return o, text + v
            o[name] = v
        elif a[:2] == '-f' and a[2:] in FLAGS:
            o[FLAGS[a[2:]]] = True
        elif a[:5] == '-fno-' and a[5:] in FLAGS:
            o[FLAGS[a[5:]]] = False
        elif a == '-finvert-hl':
            o['inverthl'] = True
        elif a[:2] == '-l':
            o['fingerprints'].append(a[2:])
    if i >= len(argv) or argv[i] == '':
        return o, 'No input file specified.'
    o['file'] = argv[i]
    o['args'] = argv[i:]
    if o['std'] is None:
        base = o['file'].split('/')[-1]
        ext = base[base.rindex('.'):] if '.' in base[1:] else ''
        if ext == '.bf':
            o['std'] = 93
        elif ext == '.fish' or ext == '.sf':
            o['std'] = 'fish' if ext == '.fish' else 'sfish'
            o['dims'] = 2
            o['strings'] = 'multispace'
        else:
            o['std'] = 98
    return o, None


def option(src):
    k = src.n(20)
    if k < 5:
        return '-std=' + src.pick(['be98', 'be93', 'une98', 'une93', 'tre98', 'be98', 'fish', 'sfish'])
    if k < 8:
        return '-fstrings=' + src.pick(['sgml', 'multispace', 'c'])
    if k < 10:
        return '-ftopo=' + src.pick(['lahey', 'torus'])
    if k < 12:
        return '-fcells=' + src.pick(['int', 'char'])
    if k == 12:
        return '-finvert-hl'
    if k < 17:
        return '-f' + src.pick(['no-', 'no-', '']) + src.pick(['concurrent', 'execute', 'filesystem'])
    if k == 17:
        return '-fthreads=' + src.pick(['funge', 'funge', 'native'])
    if k == 18:
        return '-l' + src.pick(['BOOL', 'CPLI', 'BITW', 'NOSUCH', '', 'Q', 'bool', 'MODE'])
    return src.pick(IGNORED)


def letters(lz, m, ip):
    return num(lz.src.int(0, 9)) + num(lz.src.int(1, 9)) + lz.src.pick('AONXMSVRD')


def text(lz, m, ip):
    src = lz.src
    return '"' + ''.join(src.pick(['a', ' ', '  ', '   ', 'b', '\\n', '\\\\', '\\0', '\\"', '\\x', 'Z', '\xc3', '\x80']) for _ in range(src.int(1, 6))) + '"'


def layers(lz, m, ip):
    return lz.src.pick('hl')


CODES = {'exit 3': 768, 'true': 0, 'false': 256}


def execute(lz, m, ip):
    return '0"' + lz.src.pick(['3 tixe', 'eurt', 'eslaf']) + '"=.'


def reading(lz, m, ip):
    return '0' * m.dims + '0' + '0"' + lz.src.pick(['z', 'on']) + '"i'


class Model24(Model):
    def system(self, cmd):
        if cmd not in CODES:
            raise OutOfDomain('command')
        return CODES[cmd]


def fishout(lz, m, ip):
    return lz.src.pick(['ao', '5n', 'l', '2', '7n', '"x  y"', "'a\"b'", '01-', 'A', '12p', '1?', '43*n', '~'][:12])


def qcode(lz, m, ip):
    k = lz.src.n(4)
    return num(lz.src.pick([0, 1, 2, 127, 128, 255, 256, 257, -1, -128, -129, 1 << 31, (1 << 32) + 3, 1 << 62, -(1 << 63), lz.src.int(-70000, 70000)])) + 'q' if k == 0 else I.show(lz, m, ip)


class P(FungeProp):
    id = 'C24'
    rule = ('Command lines made of all options in any order, also repeated, contradictory, unknown and with bad values, with file names of all kinds of extensions and program '
            'arguments that look like options, on a program made of what the options change (strings with spaces and escapes, wrapping, values beyond a byte, splitting, '
            'execution, files, layers, letters, flags, arguments, ends with q). An own reading of the command line configures the model; output, exit code and messages are '
            'compared. Non-trivial: at least one option was given, or the command line is in error.')
    quick = 14000
    thorough = 150000
    quick_time = 60

    def gen(self, src):
        n = src.weighted([(1, 0), (3, 1), (4, 3), (3, 6), (1, 10)])
        opts = [option(src) for _ in range(n)]
        broken = src.n(10) == 9
        if broken:
            return self.broken(src, opts)
        stem = src.pick(['p', 'p', './p', 'd/p', 'a b', 'p.bf', 'P.b98', '\xfcber', 'p.'])
        ext = src.pick(['.b98', '.bf', '.fish', '.sf', '', '.txt', '.BF', '.b93', '.bf2', '.'])
        name = stem + ext
        if src.n(30) == 29:
            name = src.pick(['.bf', '.fish', 'd.bf/p', '.b98'])
        tail = [src.pick(['-std=be93', 'x', '', '-fno-concurrent', 'a b', '-fstrings=oops', '--', '-lBOOL', 'p.bf', '\xe4']) for _ in range(src.n(4))]
        argv = opts + [name] + tail
        o, err = parse(argv)
        assert not err
        fish = o['std'] in ('fish', 'sfish')
        if fish:
            return self.fish(src, o, argv, name, tail)
        dims = o['dims']
        cfg = Config(dims=dims or src.weighted([(4, 2), (2, 1), (1, 3)]), std=o['std'], topo=o['topo'], strings=o['strings'], cells=o['cells'], concurrent=o['concurrent'],
                     execute=o['execute'], filesystem=o['filesystem'], inverthl=o['inverthl'], args=[name] + tail, K=4)
        cfg.model = Model24
        cfg.fingerprints = [sum(ord(c) << 8 * i for i, c in enumerate(reversed(f))) for f in o['fingerprints']]
        if cfg.std < 98:
            cfg.fingerprints = []
        D = cfg.dims
        box = {1: (300,), 2: (120, 4), 3: (70, 4, 2)}[D]
        if cfg.topo == 'torus':
            box = (80, 25, 2)[:D]
        t = [(5, text), (4, I.show), (4, I.put), (3, I.get), (2, I.digit), (2, I.direction3), (2, '#'), (2, I.charout), (1, I.unknown), (2, execute), (2, reading), (2, letters),
             (1, qcode), (1, I.decision)]
        if o['threads'] == 'funge' or not o['concurrent']:
            t.append((2, I.thread))
        if D > 2:
            t.append((4, layers))
        if cfg.std >= 98:
            t += [(3, I.yquery(1)), (2, I.yquery(7)), (2, lambda lz, m, ip: I.yquery(10 + 5 * m.dims + lz.src.int(2, 30))), (1, I.turn), (1, I.fly), (1, I.begin), (1, I.store)]
        else:
            t += [(2, lambda lz, m, ip: lz.src.pick("abcf'kx;[r{zyqjsuwn"))]
        files = {'z': 'ok'}
        q = [I.yquery(1)] if cfg.std >= 98 else []
        program, m, lz = build(src, cfg, box, t, src.pick([20, 40, 80]), corners=cfg.topo == 'lahey', space=1, queries=q, files=files, fingers=FINGERS)
        case = make(cfg, bool(dims), opts, program, name=name, tail=tail, files=files, fingers=FINGERS, K=4)
        case['files'] = {k: v for k, v in case['files'].items()}
        case.pop('after', None)
        self.count(case, opts, o)
        return case

    def count(self, case, opts, o):
        st = case['_stats']
        st['std %s' % o['std']] = 1
        st['dims %s' % (o['dims'] or 'auto')] = 1
        st['options'] = len(opts)
        case['_opts'] = len(opts)

    def fish(self, src, o, argv, name, tail):
        cfg = Config(dims=2, std=98, topo=o['topo'], strings='multispace', cells=o['cells'], filesystem=o['filesystem'], args=[name] + tail)
        cfg.model = StarModel if o['std'] == 'sfish' else FishModel
        if o['strings'] != 'multispace':
            raise Discard('the string style of ><>')
        t = [(4, fishout), (2, G.move), (2, G.number), (1, G.put), (1, G.get), (2, G.string), (1, '#')]
        if o['std'] == 'sfish':
            t += [(1, 'u'), (1, 'O'), (1, '`')]
        box = (100, 4) if o['topo'] == 'lahey' else (80, 25)
        program, m, lz = build(src, cfg, box, t, src.pick([10, 30, 60]), finisher=G.finish, space=1, escape=6, max_moves=8000, corner=114, corners=o['topo'] == 'lahey')
        n = argv.index(name) if name in argv else 0
        case = make(cfg, True, argv[:len(argv) - 1 - len(tail)], program, name=name, tail=tail)
        case.pop('after', None)
        self.count(case, argv[:len(argv) - 1 - len(tail)], o)
        return case

    def broken(self, src, opts):
        k = src.n(6)
        if k < 3:
            bad = src.pick(['-std=', '-ftopo=', '-fstrings=', '-fcells=', '-fthreads=']) + src.pick(BAD)
            opts.insert(src.n(len(opts) + 1), bad)
            argv = opts + src.pick([['p.b98'], [], ['p.b98', 'x']])
        elif k == 3:
            argv = opts + src.pick([[], [''], ['', 'p.b98']])
        else:
            argv = opts + [src.pick(['none', 'none.bf', 'd', 'd.bf', 'd/', '.', 'p.b98/x', 'd/none.fish', 'none.fmv', 'p.b98 '])] + src.pick([[], ['p.b98']])
        o, err = parse(argv)
        code = 22
        if err is None:
            if o['file'] in ('p.b98',):
                raise Discard('not broken')
            err, code = 'Failed to open "%s"' % o['file'], 5
        return {'files': {'p.b98': '"KO",,@', 'd/x': '', 'd.bf/x': ''}, 'args': argv, 'out': '', 'code': code, 'message': err, '_opts': 1, '_stats': {'error %d' % code: 1}}

    def check(self, case, ex):
        msg = judge(case, ex)
        if msg is None and 'message' in case and case['message'] not in ex.err:
            return 'expected the message %r, stderr is %r' % (case['message'], ex.err[:300])
        return msg

    def labels(self, case):
        return [k for k in case['_stats'] if k.split()[0] in ('std', 'dims', 'error', 'thread', 'denied', 'exec', 'wrap', 'escape', 'squeezed', 'filein')]

    def nontrivial(self, case):
        return case.get('_opts', 1) > 0


PROP = also(P())
