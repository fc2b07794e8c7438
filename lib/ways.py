"""Programs whose IPs split into ways of their own: a row, from it columns, from these rows again."""
from .gen98 import Field


def some(src, n, nested, extra=(), ids=False, often=0):
    """Instructions for one way, at most n cells."""
    out = []
    while len(out) < n:
        it = src.pick(list(extra) + ['.', ':', 'z', '%d' % src.n(10)]) if often and src.n(3) < often else src.pick(['%d' % src.n(10), '.', '+', '-', '*', ':', '\\', 'z', 'z' if ids else '8y.', "'%c" % src.int(65, 90), "'%c," % src.int(97, 122), '"ab"', '0{', '1{0}', '2k.', '12-', '/', '%', '!', '`', '$',
                       ';x;', '#.', '#F2#F', '10g.', 'z' if nested or ids else 'A'] + list(extra))
        if it == 'A':
            it = '#@A'        # back on what it does not know, over what it has done, to the @
        if len(out) + len(it) > n:
            break
        out += it
        if it == '#@A':
            return out
    return out


def close(src, ids=False):
    return list('.' * src.n(4) + ('8y.' if ids or src.n(2) == 0 else '') + '@')


def ways(src, extra=(), ids=False, quiet=0):
    """Ways that split: a row, from it columns, from these rows again. With ids, every IP prints its ID once."""
    cells = {}
    x = 0

    def lay(seq, x, y, dx, dy):
        for ch in seq:
            cells[x, y] = ch
            x += dx
            y += dy
        return x, y
    n = src.weighted([(3, 2), (3, 4), (2, 8), (2, 14)])
    used = src.int(1, 3)
    seq = some(src, used, True, extra, ids, quiet)
    x, _ = lay(seq, 0, 0, 1, 0)
    for i in range(n):
        wide = src.int(6, 14)
        lay('#', x, 0, 1, 0)
        col = x + 1
        cells[col, 0] = 'v'
        cells[col + 1, 0] = 't'
        # the column
        y = 1
        for j in range(src.n(3)):
            seq = some(src, src.n(6), True, extra, ids, quiet)
            _, y = lay(seq, col, y, 0, 1)
            if y > 0 and src.n(3):
                cells[col, y] = '#'
                cells[col, y + 1] = '>'
                cells[col, y + 2] = 't'
                lay(some(src, wide - 6, True, extra, ids, quiet) + list('.8y.@' if ids else src.pick(['.@', '..@', '@', ':.@'])), col + 1, y + 1, 1, 0)
                y += 3
        seq = some(src, src.n(8), False, extra, ids, quiet) + close(src, ids)
        lay(seq, col, y, 0, 1)
        seq = some(src, wide - 2 if src.n(3) else src.n(wide - 1), True, extra, ids, quiet)
        lay(seq, col + 2, 0, 1, 0)
        x = col + 2 + wide - 2
    lay(close(src, ids), x, 0, 1, 0)
    f = Field(2)
    f.c = {p: ord(c) for p, c in cells.items()}
    return f.text()
