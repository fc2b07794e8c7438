from lib.gen98 import *
from lib import items as I
from lib.funglib import parse as parse_fl
from lib.big import also

CONF = [(4, ('.b98', None)), (2, ('.txt', None)), (1, ('', None)), (3, ('.bf', None)), (2, ('.b98', 'be98')), (1, ('.bf', 'be98')), (1, ('.b98', 'une98')),
        (3, ('.b98', 'tre98')), (2, ('.bf', 'be93')), (1, ('.b98', 'be93')), (1, ('.bf', 'une93')), (4, ('.beq', None)), (1, ('.beq', 'be98')), (3, ('.fl', None))]
TEXT = 'abcxyz019+-<>^v@;"# \t\x00\x01\x7f\x80\xe9\xff\x0b'
BREAKS = ['\n', '\n', '\r\n', '\r', '\n\n', '\n\r', '\r\r\n', '\f', '\v', '\f\n', '\v\n', '\f\r\n', '\f\f', '\v\f', '\f\v', '\n\f', ' \f', '\f ', ' \n']


def parse_beq(data, K, char):
    """BeQunge files: control lines with comma separated fields, each followed by as many lines of text as its Lines says."""
    f = Field(K, char)
    dims = 0
    used = 1
    lines = data.split('\n')
    i = 0
    while i < len(lines):
        count, origin, n = 0, [0] * K, 0
        for c in lines[i].split(','):
            w = c.split(' ')
            if w[0] == 'Dimensions' and not dims:
                dims = int(w[1])
            elif w[0] == 'Lines':
                count = int(w[1])
            elif w[0] == 'Origin':
                v = w[1].split(':')
                for n, a in enumerate(v):
                    origin[n] = int(a)
                n = len(v)
            elif w[0] == 'Coord':
                for a in w[1].split(':'):
                    if a:
                        origin[n] = int(a)
                    n += 1
        i += 1
        for k in range(count):
            for x, ch in enumerate(lines[i]):
                p = list(origin)
                p[0] += x
                p[1] += k
                f.put(tuple(p), ord(ch))
                used = max([used] + [d + 1 for d in range(K) if p[d]])
            i += 1
    return f, dims or used


class P(FungeProp):
    id = 'C07'
    rule = ('Source files of generated text with every mix of LF, CR, CRLF, form feeds and vertical tabs, spaces, tabs, NUL and bytes from 128 on, '
            'read by extension (.b98, .bf, others) or -std in 1 to 4 dimensions, and .beq files of generated blocks in up to 5 dimensions with '
            'negative origins, and .fl files of planes; the program in the first line prints the number of dimensions, the bounds and generated cells, compared with a '
            'loader written from the format. Non-trivial: the file has at least two lines or planes.')
    quick = 16000
    thorough = 160000
    quick_time = 60

    def reader(self, src, cfg, field, width):
        """A line that prints cells: of the file, next to them, and anywhere."""
        n98 = cfg.std >= 98
        D = cfg.dims
        cells = [p for p in field.c if not any(p[D:])]
        out = []
        n = 0
        for _ in range(src.int(1, 12) if width > 100 else 3):
            if cells and src.n(5):
                p = list(src.pick(sorted(cells)))
                if src.n(3) == 2:
                    p[src.n(D)] += src.pick([1, -1])
            else:
                p = [src.int(-2, 12) for _ in range(D)]
            s = vec(p[:D], n98) + 'g.'
            if n + len(s) > width:
                break
            out.append(s)
            n += len(s)
        if n98:
            out.append('7y.')
            for k in range(2 * D):
                out.append(num(10 + 3 * D + k) + 'y.')
        return ''.join(out) + '@'

    def gen(self, src):
        ext, std = src.weighted(CONF)
        n98 = '93' not in std if std else ext != '.bf'
        dims = {'u': 1, 'b': 2, 't': 3}[std[0]] if std else 0
        torus = bool(std) and not n98
        cfg = Config(dims=dims, std=98 if n98 else 93, topo='torus' if torus else 'lahey', cells='char' if torus else 'int',
                     strings='sgml' if n98 or not torus else 'multispace')
        name = 'p' + ext
        args = std_args(cfg, ['-std=' + std] if std else [])
        if ext == '.fl':
            return self.fl(src, cfg, name, args)
        if ext == '.beq':
            return self.beq(src, cfg, name, args, dims)
        rest = []
        for _ in range(src.weighted([(1, 0), (3, 1), (4, 3), (3, 8), (2, 20)])):
            rest.append(src.pick(BREAKS))
            rest.append(''.join(src.pick(TEXT) for _ in range(src.int(0, 9))))
        if src.n(2):
            rest.append(src.pick(BREAKS))
        rest = ''.join(rest)
        f, d = load_text('z' + rest, dims, cfg.cells, 4 if rest.count('\v') else 4)
        if any(any(p[d:]) for p in f.c) and not dims:
            raise Discard('dimensions')
        cfg.dims = d
        cfg.K = 4
        line = self.reader(src, cfg, f, 70 if torus else 3000)
        text = line + rest
        if dims == 1 and torus and len(line) > 79:
            raise Discard('long')
        case = make_loaded(cfg, lambda: load_text(text, dims, cfg.cells, 4)[0], args, text, name)
        case['_stats'][ext or 'none'] = 1
        case['_stats']['%d dimensions' % d] = 1
        case['_lines'] = len(rest)
        return case

    def beq(self, src, cfg, name, args, dims):
        D = src.int(2, 5)
        K = max(D, 2)
        blocks = []
        for _ in range(src.int(0, 5)):
            origin = [src.pick([0, 1, 5, -1, -7, 30, 100]) for _ in range(D)]
            k = src.int(1, D)
            ls = [''.join(src.pick(TEXT) for _ in range(src.int(0, 8))) for _ in range(src.int(1, 4))]
            head = []
            if k == D:
                head.append('Origin ' + ':'.join(map(str, origin)))
            else:
                if k < 2:
                    k = 2 if D > 2 else D
                head.append('Origin ' + ':'.join(map(str, origin[:k])))
                if k < D:
                    head.append('Coord ' + ':'.join('' if a == 0 and src.n(2) else str(a) for a in origin[k:]))
            head.append('Lines %d' % len(ls))
            blocks.append((','.join(head), ls))
        first = src.pick(['Version 0.2,Dimensions %d', 'Dimensions %d', 'Version 0.2\nDimensions %d', 'Dimensions %d\n', 'Version 0.2', ''])
        if '%' in first:
            first = first % D

        def data(line):
            s = first + '\n'
            out = ['Lines 1\n%s\n' % line]
            for h, ls in blocks:
                out.append(h + '\n' + ''.join(l + '\n' for l in ls))
            return s + ''.join(out)
        f, d = parse_beq(data('z'), K, False)
        if dims and dims != d:
            cfg.dims = dims
        else:
            cfg.dims = d
        cfg.K = K
        line = self.reader(src, cfg, f, 3000)
        # the blocks may not hide the program
        text = data(line)
        f, d = parse_beq(text, K, False)
        if any(f.get((x,) + (0,) * (K - 1)) != ord(ch) for x, ch in enumerate(line)):
            raise Discard('hidden')
        case = make_loaded(cfg, lambda: parse_beq(text, K, False)[0], args, text, name)
        case['_stats']['.beq'] = 1
        case['_stats']['%d dimensions' % cfg.dims] = 1
        case['_lines'] = len(blocks)
        return case

    def fl(self, src, cfg, name, args):
        cfg.dims, cfg.K = 3, 4
        planes = []
        for ch in sorted({src.pick('BCDEMYZ') for _ in range(src.int(0, 5))}, reverse=src.n(2) == 1):
            rows = [''.join(src.pick(TEXT + '==A') for _ in range(src.int(0, 8))) for _ in range(src.int(0, 4))]
            planes.append('=%s\n' % ch + ''.join(r + '\n' for r in rows))
        more = [''.join(src.pick(TEXT + '==') for _ in range(src.int(0, 8))) + '\n' for _ in range(src.int(0, 3))]
        at = src.n(len(planes) + 1)
        head = src.pick(['=A\n', '=A\n', '']) if not at else '=A\n'

        def data(line):
            t = ''.join(planes[:at]) + head + line + '\n' + ''.join(more) + ''.join(planes[at:])
            return t[:-1] if len(planes) + len(more) & 1 else t
        f, ls = parse_fl(data('z'), 4)
        text = data(self.reader(src, cfg, f, 3000))
        case = make_loaded(cfg, lambda: parse_fl(text, 4)[0], args, text, name)
        case['_stats']['.fl'] = 1
        case['_lines'] = len(planes) + len(more)
        return case

    def nontrivial(self, case):
        return case['_lines'] > 0


def make_loaded(cfg, load, args, text, name):
    cfg.args = [name]
    m = Model(cfg, load(), '')
    m.max_moves = 100000
    try:
        code = m.run(6000)
    except (OutOfDomain, Budget) as e:
        raise Discard(str(e))
    return {'files': {name: text}, 'args': args + [name], 'stdin': '', 'env': {}, 'out': m.stdout(), 'code': code, '_stats': dict(m.stats)}


PROP = also(P())
