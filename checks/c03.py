from lib.gen98 import *
from lib import items as I
from lib.big import also


def fin(lz, m, ip):
    if ip.end is not None:
        return chr(ip.end & 255)
    return lz.fin


class P(FungeProp):
    id = 'C03'
    rule = ('Programs in small fungespaces (1 to 3 dimensions, Lahey or torus) in which the IP turns, flies with generated deltas, jumps, '
            'leaves the edges on all sides, and writes and erases cells that move the edges; the path shows in what is printed. '
            'Non-trivial: the IP wrapped at least once (Lahey) or changed delta (torus).')
    quick = 14000
    thorough = 260000

    def gen(self, src):
        if src.n(25) == 24:
            return self.shrunk(src)
        dims = src.weighted([(5, 2), (1, 1), (3, 3), (1, 4)])
        topo = 'torus' if src.n(4) == 3 else 'lahey'
        cfg = Config(dims=dims, topo=topo)
        if dims == 1:
            box = (src.int(3, 40),)
        elif dims == 2:
            box = (src.int(1, 14), src.int(2, 9))
        elif dims == 3:
            box = (src.int(1, 9), src.int(1, 6), src.int(2, 4))
        else:
            topo = cfg.topo = 'lahey'
            box = (src.int(2, 9), src.int(1, 4), src.int(1, 3), src.int(2, 3))
        if topo == 'torus':
            box = (80, 25, 3)[:dims]
        edge = [(5, I.put), (1, I.store)] if src.n(2) else []
        t = [(6, I.digit), (5, I.show), (5, I.direction3), (3, I.turn), (4, I.fly), (1, I.flybig), (2, I.jump), (2, '#'),
             (1, I.decision), (1, I.compare), (2, 'z'), (1, I.get)] + edge
        def setup(lz, m):
            lz.fin = src.pick(['@', 'q', '@', '.@'])
        text, m, lz = build(src, cfg, box, t, src.pick([12, 30, 60, 100]), corners=topo == 'lahey', prog=setup, finisher=fin, space=3)
        case = make(cfg, dims < 4, std_args(cfg, stdopt(dims) + (['-ftopo=torus'] if topo == 'torus' else [])), text)
        case['_stats'][topo + str(dims)] = 1
        return case

    def shrunk(self, src):
        """The IP leaps far out, erases the cell it stands on, and finds its way back into what is left of the field."""
        dims = src.weighted([(5, 2), (2, 1), (2, 3)])
        cfg = Config(dims=dims)
        delta = [src.pick([-1, -1, -2, -3, -5, 1, 2])] + [src.pick([0, 0, 1, 1, 2]) for _ in range(dims - 1)]
        if not any(delta[1:]):
            delta[0] = -abs(delta[0])
        n = src.pick([-3, -9, -20, -70, -100, 60, 110]) + src.int(-5, 5)
        code = 'z' * 60
        for _ in range(30):
            # the coordinates depend on the length of the code
            x = len(code)
            j = [x + delta[0]] + delta[1:]
            if dims == 1 or not any(delta[1:]):
                j[1:] = [0] * (dims - 1)
            at = [a + (n + 1) * d for a, d in zip(j, delta)]
            if any(a < 0 for a in j):
                raise Discard('no room')
            c = num(112) + vec(at) + 'p' + num(32) + vec(at) + num(n) + vec(delta)
            if delta[0] < 0 and not any(delta[1:]):
                # the j is just before the x
                c += '#j' + 'z' * (-delta[0] - 1)
            if len(c) == len(code) and c == code:
                break
            code = c
        else:
            raise Discard('no fixed point')
        w, h, d = len(code) + src.int(7, 20), src.int(2, 7) if dims > 1 else 1, src.int(2, 3) if dims > 2 else 1
        body = '0123456789......:+-r@#' + ('><^v[]' if dims > 1 else '')
        cells = {(x, y, z): src.weighted([(5, '.'), (4, '7'), (3, '3'), (2, ' '), (2, '@'), (3, src.pick(body))]) for x in range(w) for y in range(h) for z in range(d)}
        for x, ch in enumerate(code + 'x' + '@' * abs(delta[0])):
            cells[x, 0, 0] = ch
        f = tuple(j) + (0,) * (3 - dims)
        if f not in cells or (f[1] == f[2] == 0 and f[0] < len(code) and code[f[0]] != 'j'):
            raise Discard('no room')
        cells[f] = 'j'
        text = '\n\f'.join('\n'.join(''.join(cells[x, y, z] for x in range(w)) for y in range(h)) for z in range(d))
        case = make(cfg, True, std_args(cfg, stdopt(dims)), text)
        case['_stats']['shrunk'] = 1
        return case

    def nontrivial(self, case):
        st = case['_stats']
        return 'wrap' in st or '-ftopo=torus' in case['args']


PROP = also(P())
