"""The reference model under its debugger: where it stops, what it says, and what its commands change."""
from .model98 import *
from .model98 import Model as Model98

START, RUN, STEP, BREAK, END = range(5)


class Thread:
    def __init__(self, ip, state):
        self.ip, self.state, self.bt = ip, state, []


class Watched(Field):
    def put(self, p, v):
        m = self.model
        if m.debugging and p in m.watchpoints:
            m.watch_hit(p, v)
        Field.put(self, p, v)


def byte(i):
    return chr(i & 255)


def order(v):
    return tuple(reversed(v))


def _reads(m, ip):
    raise OutOfDomain('input is shared with the debugger')


class DebugModel(Model98):
    """ask(model) gives the next command line, or None when there are no more."""

    def __init__(self, cfg, field, ask, debugging, fingers=None, files=None):
        self.ask = ask
        self.debugging = debugging
        self.threads = {}
        self.breakpoints = set()
        self.watchpoints = set()
        self.lastthread = 0
        self.shown = None
        self.introduced = False
        self.prompts = 0
        self.intick = False
        self.moved = False
        field.__class__ = Watched
        field.model = self
        super().__init__(cfg, field, '', files, fingers)
        self.base = dict(self.base)
        self.base[126] = self.base[38] = _reads

    def line(self, s):
        self.write(s + '\n')

    def intro(self):
        if not self.introduced:
            self.line('Funge++ Debugger')
            self.line(''.join(a + ' ' for a in self.cfg.args))
            self.introduced = True

    def show_ip(self, ip):
        self.line('%d: %s "%s"' % (ip.id, self.vec(ip.pos), byte(self.f.get(ip.pos))))

    def tick(self, ip):
        self.ticks += 1
        while True:
            if self.debugging:
                self.dbg_tick(ip)
                if self.exit is not None:
                    return
            i = self.f.fetch(ip.pos)
            err = self.execute(ip, i)
            if self.exit is not None:
                return
            if err <= SKIP:
                self.next(ip)
                if err == NONE:
                    return
                self.moves += 1
                if self.moves > self.max_moves:
                    raise Budget('skips')
            elif err == BLOCK:
                return
            else:
                if self.debugging:
                    self.intro()
                    self.count('trap')
                    self.line('Exception Trapped %s' % self.vec(ip.pos))
                    self.threads[self.lastthread].state = BREAK
                    self.prompt(ip)
                    if self.exit is not None:
                        return
                self.reflect(ip)
                self.next(ip)
                return

    def round(self):
        ip = self.runners[0]
        Model98.round(self)
        if ip.stopped:
            t = self.threads.get(ip.id)
            if t is None:
                self.threads[ip.id] = Thread(None, END)
            else:
                t.state = END

    def dbg_tick(self, ip):
        self.intro()
        t = self.threads.get(ip.id)
        if t is None:
            t = self.threads[ip.id] = Thread(ip, START)
            self.line('New IP %d' % ip.id)
        self.lastthread = ip.id
        if ip.pos in self.breakpoints:
            self.count('breakpoint')
            self.line('Breakpoint %s' % self.vec(ip.pos))
            t.state = BREAK
        t.bt.insert(0, ip.pos)
        del t.bt[10:]
        if t.state == RUN:
            return
        self.intick = True
        self.prompt(ip)
        self.intick = False

    def swbreak(self, ip):
        if self.debugging:
            self.count('software breakpoint')
            self.intro()
            self.line('Software Breakpoint %s' % self.vec(ip.pos))
            self.threads[self.lastthread].state = BREAK
            self.prompt(ip)

    def watch_hit(self, p, v):
        t = self.threads[self.lastthread]
        t.state = BREAK
        self.intro()
        self.count('watchpoint')
        self.line('Watchpoint %s' % self.vec(p))
        old = self.f.get(p)
        self.line('Old value = (%d) "%s"' % (old, byte(old)))
        self.line('New value = (%d) "%s"' % (v, byte(v)))
        self.prompt(t.ip)

    def prompt(self, ip):
        self.shown = ip
        self.show_ip(ip)
        while True:
            self.write('\x1b[33m(defunge)\x1b[0m ')
            self.prompts += 1
            c = self.ask(self)
            if self.command(c):
                return

    def command(self, line):
        w = ('quit' if line is None else line).split(None, 1)
        if not w:
            return False
        c, rest = w[0], w[1] if len(w) > 1 else ''
        ip = self.shown
        if c in ('run', 'r', 'continue', 'con', 'c'):
            self.threads[ip.id].state = RUN
            return True
        if c in ('quit', 'q'):
            self.exit = 1
            return True
        if c in ('step', 'stp', 's'):
            self.threads[ip.id].state = STEP
            return True
        if c in ('peek', 'p'):
            a = [int(x) for x in rest.split()]
            if not a or not a[0]:
                for j in range(len(ip.ss)):
                    st = ip.ss[-1 - j]
                    self.line('[%d] %s' % (j, ''.join('%d ' % v for v in (st.s if not self.mode & QUEUE else reversed(st.s)))))
            else:
                s = a[1] if len(a) > 1 else 0
                self.line(str(self.peek(ip.ss[-1 - s], a[0]) if s < len(ip.ss) else 0))
        elif c in ('delta', 'dir', 'd'):
            self.line('Delta ' + self.vec(ip.delta))
        elif c == 'storage':
            self.line('Storage ' + self.vec(ip.storage))
        elif c in ('position', 'pos'):
            self.show_ip(ip)
        elif c in ('thread', 't'):
            tid = ip.id
            if rest:
                n = int(rest)
                if n in self.threads and self.threads[n].state != END:
                    tid = n
                    self.shown = self.threads[n].ip
            for n in sorted(self.threads):
                t = self.threads[n]
                if t.state == END:
                    self.line('  %d: end' % n)
                else:
                    self.write('* ' if n == tid else '  ')
                    self.show_ip(t.ip)
        elif c in ('backtrace', 'bt'):
            self.line('Backtrace')
            for k, b in enumerate(self.threads[ip.id].bt):
                self.line('#%d  %s "%s"' % (k, self.vec(b), byte(self.f.get(b))))
        elif c == 'setdelta':
            self.moved = True
            self.setdelta(ip, self.vector(rest))
            self.line('Delta ' + self.vec(ip.delta))
        elif c == 'setpos':
            self.moved = True
            ip.pos = self.vector(rest)
            self.show_ip(ip)
        elif c in ('get', 'g', 'list', 'l'):
            vs = self.vectors(rest)
            center = ip.pos
            if c[0] == 'g' and vs:
                center = vs.pop(0)
            size = vs[0] if vs else (3, 3) + (0,) * (self.K - 2)
            d = tuple(vs[1][:2]) if len(vs) > 1 else (0, 1)
            self.area(center, size, d, ip)
        elif c in ('break', 'bp', 'watch', 'wp'):
            s = self.breakpoints if c[0] == 'b' else self.watchpoints
            s.update(self.vectors(rest))
            for v in sorted(s, key=order):
                self.line(('Breakpoint ' if c[0] == 'b' else 'Watchpoint ') + self.vec(v))
        elif c == 'read':
            i = self.f.get(self.vector(rest))
            self.line('Value = (%d) "%s"' % (i, byte(i)))
        elif c in ('universe', 'u'):
            if rest.split()[:1] == [self.cfg.name]:
                t = self.threads.get(self.lastthread)
                if t is None or t.state == END:
                    raise OutOfDomain('no thread')
                self.shown = t.ip
            self.line('* ' + self.cfg.name)
        return False

    def area(self, center, size, d, ip):
        a, b = d
        for y in range(center[b] - size[b], center[b] + size[b] + 1):
            row = []
            for x in range(center[a] - size[a], center[a] + size[a] + 1):
                p = list(center)
                p[a], p[b] = x, y
                p = tuple(p)
                color = ''
                if any(t.state != END and t.ip.pos == p for t in self.threads.values()):
                    color += '\x1b[43;1m'
                if p in self.breakpoints:
                    color += '\x1b[41;1m'
                if p in self.watchpoints:
                    color += '\x1b[34;1m'
                if p == center:
                    color += '\x1b[4m'
                if p == ip.pos:
                    color += '\x1b[42;1m'
                row.append(color + byte(self.f.get(p)) + ('\x1b[0m' if color else ''))
            self.line(''.join(row))

    def vectors(self, text):
        out = []
        for part in text.split(')'):
            part = part.strip()
            if part.startswith('('):
                v = [int(x) for x in part[1:].split(',')]
                out.append(tuple(v) + (0,) * (self.K - len(v)))
        return out

    def vector(self, text):
        return self.vectors(text)[0]
