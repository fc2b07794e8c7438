"""A model of several universes: every IP is in one of them, and MVRS moves it to another."""
from .model98 import Model, Field, Config, OutOfDomain, UNSPEC
from .fingers import FINGERS, Finger, finger, fpid


class Universe:
    def __init__(self, name, cfg, field, own=False):
        self.name, self.cfg, self.f = name, cfg, field
        self.mode = 0
        self.own = own


class MultiModel(Model):
    """cfg.uni: list of (name, config, field) of the universes of the command line, the last is where the IP starts."""

    here = None

    @property
    def mode(self):
        return self.here.mode if self.here else 0

    @mode.setter
    def mode(self, mode):
        if self.here:
            self.here.mode = mode

    def __init__(self, cfg, field, stdin='', files=None, fingers=None):
        Model.__init__(self, cfg, field, stdin, files, fingers)
        self.uni = {}
        for name, c, f in cfg.uni:
            self.unique(name, c, f)
        self.prime = next(iter(self.uni.values()))
        self.exits = {}
        ip = self.runners[0]
        ip.id = len(cfg.uni) - 1
        self.ids = len(cfg.uni)
        ip.uni = list(self.uni.values())[-1]
        self.enter(ip.uni)

    def unique(self, name, c, f):
        n, a = name, 1
        while n in self.uni:
            n = '%s.%d' % (name, a)
            a += 1
        u = self.uni[n] = Universe(n, c, f)
        return u

    def enter(self, u):
        self.here = u
        self.cfg = u.cfg
        self.f = u.f
        self.dims = u.cfg.dims
        self.torus = u.cfg.topo == 'torus'

    def clone(self, ip):
        n = Model.clone(self, ip)
        n.uni = ip.uni
        return n

    def round(self):
        self.enter(self.runners[0].uni)
        Model.round(self)
        if self.exit is not None:
            # the exit code is the one of the first universe
            if self.here is not self.prime:
                if len(self.runners) > 1:
                    raise OutOfDomain('an end while others run')
                self.exit = 0

    def move(self, ip, u):
        if u is not ip.uni:
            self.count('moved')
            ip.uni = u
            self.enter(u)


@finger('MVRS')
class MVRS(Finger):
    def do_B(self, m, ip, st):
        dim, lng, fl = m.pop(st), m.pop(st), m.pop(st)
        name = m.popstr(st)
        if not hasattr(m, 'uni'):
            raise OutOfDomain('one universe')
        if fl and not fl & 0x1FF:
            raise OutOfDomain('flags')
        if fl or not 0 <= lng <= 2:
            m.count('bad B')
            return UNSPEC
        if not 0 <= dim <= 3:
            raise OutOfDomain('dimensions')
        c = Config(dims=dim or m.dims, std={0: m.cfg.std, 1: 93, 2: 98}[lng], K=m.K, concurrent=m.cfg.concurrent, execute=m.cfg.execute, filesystem=m.cfg.filesystem, args=())
        f = Field(m.K)
        # it starts with the modes of this one
        m.unique(name, c, f).mode = m.mode
        m.count('created')

    def do_C(self, m, ip, st):
        m.push(st, len(m.uni))

    def other(self, m, st):
        u = m.uni.get(m.popstr(st))
        if u is None:
            m.count('no such universe')
        return u

    def copy(self, m, a, src, size, b, dest):
        n = 1
        for s in size:
            n *= abs(s) + 1
        if n > 4000:
            raise OutOfDomain('size')

        def axis(s):
            return range(0, s + 1) if s >= 0 else range(0, s - 1, -1)
        for z in axis(size[2]):
            for y in axis(size[1]):
                for x in axis(size[0]):
                    b.put(m.add(dest, (x, y, z)), a.get(m.add(src, (x, y, z))))

    def do_F(self, m, ip, st):
        size = m.popvec(st)
        src = m.popvec(st, 3)
        dest = m.popvec(st)
        u = self.other(m, st)
        if u is None:
            return UNSPEC
        m.count('from')
        self.copy(m, u.f, src, size, m.f, dest)

    def do_P(self, m, ip, st):
        size = m.popvec(st)
        src = m.popvec(st)
        dest = m.popvec(st, 3)
        u = self.other(m, st)
        if u is None:
            return UNSPEC
        m.count('to')
        self.copy(m, m.f, src, size, u.f, dest)

    def do_G(self, m, ip, st):
        delta = m.popvec(st, 3)
        pos = m.popvec(st, 3)
        u = self.other(m, st)
        if u is None:
            return UNSPEC
        m.move(ip, u)
        m.count('goto')
        ip.pos = pos
        m.setdelta(ip, delta)

    def do_J(self, m, ip, st):
        u = self.other(m, st)
        if u is None:
            return UNSPEC
        m.move(ip, u)
        m.count('jump')

    def do_N(self, m, ip, st):
        m.pushstr(st, m.here.name)
