import re, time
from datetime import datetime, timedelta, timezone
from lib.gen98 import *
from lib import items as I
from lib.big import also

ARGS = ['', 'a', '-x', 'arg', 'two words', '\xe9\xff', 'A' * 40, '0', '--']
ENV = [('A', '1'), ('PATH', '/bin'), ('EMPTY', ''), ('X_Y', 'a=b'), ('HIGH', '\xe9\x80'), ('LONG', 'z' * 60), ('_', '/x')]


# a zone as TZ has it and the minutes it is before that of Greenwich; never half a day, which a clock of twelve hours could not tell
ZONES = [('AAA-9', 540), ('BBB+7', -420), ('CCC-13', 780), ('DDD+4:30', -270), ('EEE-3', 180), ('FFF-16', 960), ('UTC0', 0)]


def stamps(zone=None):
    """What the date and the time may be, of the clock of Greenwich or of the zone."""
    out = []
    now = time.time()
    for dt in range(-3, 2):
        here = time.localtime(now + dt)
        if zone:
            here = datetime.fromtimestamp(now + dt, timezone(timedelta(minutes=dict(ZONES)[zone]))).timetuple()
        for t in (time.gmtime(now + dt), here):
            out.append((((t.tm_year - 1900) << 16) + (t.tm_mon << 8) + t.tm_mday, (t.tm_hour << 16) + (t.tm_min << 8) + t.tm_sec))
    return out


def norm(got, want, zone=None):
    """Put the marks of the model where the output has the date or the time of now."""
    parts = re.split('(%d|%d)' % (M.TIME, M.DATE), want)
    m = re.fullmatch(''.join('([0-9]+)' if i % 2 else re.escape(x) for i, x in enumerate(parts)), got, re.S)
    if not m:
        return got
    ok = stamps(zone)
    for mark, g in zip(parts[1::2], m.groups()):
        if not any(g == str(t if mark == str(int(M.TIME)) else d) for d, t in ok):
            return got
    return want


def act(lz, m, ip):
    """Something y tells of."""
    return lz.src.pick([I.hexdigit, I.const, I.begin, I.end, I.put, I.put, I.store, I.under, empty])(lz, m, ip)


def empty(lz, m, ip):
    """A stack of the stacks with nothing in it, maybe for a child too."""
    return lz.src.pick(['n', 'nt', '0{n', '0{nt', '0{n0{nt'])


def ask(lz, m, ip):
    n = len(M.sysinfo(m, ip))
    src = lz.src
    k = src.weighted([(6, None), (2, 'arg'), (2, 'env'), (3, 'pick'), (3, 'all')])
    if k is None:
        return num(src.int(1, 13 + 5 * m.dims + len(ip.ss))) + 'y.'
    if k == 'arg':
        return num(src.int(12 + 5 * m.dims, n)) + 'y.'
    if k == 'env':
        return num(max(1, n - src.int(0, 20))) + 'y.'
    if k == 'pick':
        return num(n + src.int(1, 8)) + 'y.'
    s = src.pick(['0', '0', '01-', '03-'])
    return s + 'y' + '.' * src.pick([n, n, n + 2, 12])


class P(FungeProp):
    id = 'C12'
    rule = ('y asked for generated cells, cells beyond its information (picks from the stack), zero and negative arguments (everything), from programs in '
            '1 to 4 dimensions with generated fungespace bounds, storage offsets, stacks of stacks, deltas, IPs, arguments, environment and switches; '
            'compared cell by cell with the layout of the specification; date and time must be those of the run. Non-trivial: at least one y.')
    quick = 6000
    thorough = 120000
    quick_time = 60
    stats_needed = ('sysinfo',)

    def gen(self, src):
        dims = src.weighted([(5, 2), (2, 1), (3, 3), (2, 4)])
        ex, fs, co = src.bool(), src.bool(), src.bool(3, 4)
        cfg = Config(dims=dims, execute=ex, filesystem=fs, concurrent=co, K=max(2, dims))
        args = [a for a, on in (('-fno-execute', ex), ('-fno-filesystem', fs), ('-fno-concurrent', co)) if not on]
        tail = [src.pick(ARGS) for _ in range(src.weighted([(3, 0), (2, 1), (2, 3)]))]
        env = dict(src.pick(ENV) for _ in range(src.weighted([(3, 0), (2, 1), (2, 3)])))
        if src.n(2):
            env['TZ'] = src.pick(ZONES)[0]
        cfg.args = ['p.b98'] + tail
        cfg.env = ['%s=%s' % kv for kv in env.items()]
        box = {1: (900,), 2: (900, 3), 3: (900, 3, 2), 4: (900, 3, 2, 2)}[dims]
        t = [(4, act), (4, ask), (1, I.thread)]
        if dims > 1:
            t.append((1, I.fly))
        text, m, lz = build(src, cfg, box, t, src.pick([30, 60, 200, 400]), space=0, prog=lambda lz, m: setattr(m, 'wild', True),
                            max_ticks=2000)
        std = {1: ['-std=une98'], 2: ['-std=be98'], 3: ['-std=tre98'], 4: []}[dims]
        case = make(cfg, dims < 4, args + std, text, tail=tail, env=env, wild=True, K=max(2, dims))
        case['after'] = {}
        case['_stats']['%d dimensions' % dims] = 1
        return case

    def check(self, case, ex):
        ex.clean()
        for n, d in case['files'].items():
            ex.put(n, d)
        r = ex.run(case['args'], '', case['env'])
        if r.hung or r.sig:
            return 'the program %s' % r.end()
        got = norm(r.out, case['out'], case['env'].get('TZ'))
        if got != case['out']:
            return diff(case['out'], got)
        if r.code != case['code']:
            return 'expected exit code %d, got %s' % (case['code'], r.end())
        return None


PROP = also(P())
