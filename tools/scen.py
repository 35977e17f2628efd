"""Scenario families: gen(family, seed) -> (text, primary properties)."""
import random

FAMILIES = {}


def family(name, *prim):
    def deco(f):
        FAMILIES[name] = (f, set(prim))
        return f
    return deco


class B:
    def __init__(self, name, rng):
        self.name, self.r = name, rng
        self.opts, self.insts, self.actors, self.plans = {}, [], [], []
        self.prim = None
        self.scale = 1

    def opt(self, **k):
        self.opts.update(k)

    def inst(self, i, proc, chan, cap=8, size=512):
        self.insts.append((i, proc, chan, cap, size))

    def actor(self, proc, ops):
        self.actors.append((proc, ops))
        return ops

    def plan(self, ops):
        self.plans.append(ops)
        return len(self.plans)

    def text(self):
        L = ['scenario ' + self.name]
        for k, v in self.opts.items():
            L.append('opt %s %s' % (k, v))
        for i in self.insts:
            L.append('inst %d %d %s %d %d' % i)
        for k, ops in enumerate(self.plans):
            L.append('planned %d' % (k + 1))
            L += ops
        for k, (p, ops) in enumerate(self.actors):
            L.append('actor a%d %d' % (k, p))
            L += ops
        return '\n'.join(L) + '\n'

    # --- pieces
    def timing(self, slow=0.35):
        """most runs: time passes only when everybody waits; others: threads stall at random points"""
        if self.r.random() < slow:
            self.opt(slow=self.r.choice([5, 15, 40]), stallms=self.r.choice([8, 40, 90]))
        else:
            self.opt(timely=1)

    def huge(self, p=0.12):
        """messages larger than what the library's buffers hold to start with"""
        if self.r.random() < p:
            self.scale = 300
        return self.scale

    def size(self, big=True):
        return self.r.choice([0, 1, 5, 20, 60, 200] + ([450, 700] if big else [])) * (self.scale if self.r.random() < 0.8 else 1)

    def kind(self):
        return self.r.choice('spc')

    def call(self, i, chan, fn='echo', size=None, tmo=None, kind=None, shape=None, plan=0, cbplan=0, label=None):
        s = 'call %d %s %s %s %d %d' % (i, kind or self.kind(), chan, fn, self.size() if size is None else size,
                                        self.r.choice([1000, 2000]) if tmo is None else tmo)
        if shape is not None:
            s += ' shape %d' % shape
        if plan:
            s += ' plan %d' % plan
        if cbplan:
            s += ' cbplan %d' % cbplan
        if label:
            s += ' label %s' % label
        return s

    def server(self, i, binds=('echo',)):
        o = ['new %d' % i]
        for b in binds:
            k = KINDS.get(b, b)
            o.append('bind %d %s %s' % (i, b, k))
        o.append('init %d' % i)
        return o


KINDS = {'echo': 'echo', 'e1': 'echo', 'e11': 'echo', 'e1_1': 'echo', 'e_': 'echo'}
STD = ('echo', 'void', 'throwstd')
ALLB = ('echo', 'void', 'throwstd', 'throwint', 'vthrowint', 'throwbig', 'throwempty', 'one')


def gen(fam, seed):
    f, prim = FAMILIES[fam]
    r = random.Random('%s/%d' % (fam, seed))
    b = B('%s-%d' % (fam, seed), r)
    f(b, r)
    r2 = random.Random('names/%s/%d' % (fam, seed))
    if r2.random() < 0.4:
        b.opt(naming=r2.randrange(1, 8))
    return b.text(), (b.prim or prim)


# ---------------------------------------------------------------- ordinary traffic
@family('mix', 'C01')
def mix(b, r):
    b.timing()
    b.huge(0.15)
    n = r.choice([2, 2, 3])
    chans = 'ABC'[:n]
    fns = ['echo'] + r.sample(['e1', 'e11', 'e1_1', 'e_'], 2)
    sep = r.random() < 0.8
    for i in range(n):
        b.inst(i + 1, i + 1 if sep else 1, chans[i], r.choice([4, 8, 16]), r.choice([400, 512, 1024]) * r.choice([1, b.scale]))
    for i in range(n):
        o = b.server(i + 1, fns + ['void', 'throwstd'])
        o.append('set u%d' % (i + 1))
        for j in range(n):
            o.append('wait u%d' % (j + 1))
        o.append('set go%d' % (i + 1))

        def traffic(k):
            x = []
            for _ in range(k):
                t = r.choice(chans)
                x.append(b.call(i + 1, t, r.choice(fns + ['void', 'throwstd'] if r.random() < 0.4 else fns), b.size(), 2000))
                if r.random() < 0.1:
                    x.append('usleep %d' % r.randrange(1, 400))
            x.append('await' if r.random() < 0.8 else 'await norel')
            return x
        b.actor(i + 1 if sep else 1, o + traffic(r.choice([2, 3, 4])))
        if r.random() < 0.7:
            b.actor(i + 1 if sep else 1, ['wait go%d' % (i + 1)] + traffic(r.choice([1, 2, 3])))


@family('same', 'C01', 'C02')
def same(b, r):
    """many threads of one instance call the same function at once"""
    b.timing(0.25)
    b.inst(1, 1, 'A', 16, 512)
    b.inst(2, 2, 'B', 16, 512)
    b.actor(2, b.server(2, ['f', 'f1', 'f11'] if r.random() < 0.5 else ['f']) [0:] + ['set u'])
    b.actors[0][1][1:1] = []
    fns = [x.split()[2] for x in b.actors[0][1] if x.startswith('bind')]
    for k, x in enumerate(b.actors[0][1]):
        if x.startswith('bind'):
            p = x.split()
            b.actors[0][1][k] = 'bind 2 %s echo' % p[2]
    b.actor(1, b.server(1) + ['wait u', 'set go'] + [b.call(1, 'B', r.choice(fns), 20, 2000) for _ in range(3)] + ['await'])
    for _ in range(r.choice([1, 2, 3])):
        b.actor(1, ['wait go'] + [b.call(1, 'B', r.choice(fns), 20, 2000, kind=r.choice('sp')) for _ in range(r.choice([2, 4]))] + ['await'])


def many(n):
    """a call stays outstanding while its instance makes n others"""
    import random as _r
    b = B('many-%d' % n, _r.Random(n))
    b.opt(timely=1, maxsteps=60000000, cpu=300)
    b.inst(1, 1, 'A', 16, 512)
    b.inst(2, 2, 'B', 16, 512)
    p = b.plan(['wait done'])
    b.actor(2, b.server(2, ['burst']) + ['set u'])
    b.actor(1, b.server(1, ['burst']) + ['wait u'] + [b.call(1, 'B', 'burst', 10, 60000, kind=k, plan=p) for k in 'pc'] +
            ['sleep 1', 'burst 1 %d' % n, 'set done', 'await'] + [b.call(1, 'B', 'burst', 10, 1500) for _ in range(3)] + ['await'])
    return b.text(), ['C02']


# ---------------------------------------------------------------- failures of the callee
@family('err', 'C15')
def err(b, r):
    b.timing(0.2)
    b.inst(1, 1, 'A', 8, 2048)
    b.inst(2, 2, 'B', 8, 2048)
    binds = list(ALLB) + ['z%d' % i for i in range(4)]
    o = ['new 2']
    zk = ['zero', 'zerov', 'zerothrow', 'zero']
    for x in ALLB:
        o.append('bind 2 %s %s' % (x, x))
    for k in range(4):
        o.append('bind 2 z%d %s' % (k, zk[k]))
    o += ['init 2', 'set u']
    b.actor(2, o)
    odd = r.choice(['%ps%pn%ps', '%K', '%K%K' + 'y' * r.randrange(24)])  # names of bound functions are free as well
    o[1:1] = ['bind 2 %s %s' % (odd, r.choice(['throwstd', 'throwint', 'throwbig', 'echo']))]
    for a in range(r.choice([1, 2, 3])):
        x = b.server(1) + ['wait u', 'set go'] if a == 0 else ['wait go']
        zs = [0, 1, 2, 3] if a == 0 else []
        for _ in range(r.choice([3, 4, 6])):
            c = r.random()
            if c < 0.08:
                x.append(b.call(1, 'B', odd))
            elif c < 0.35:
                x.append(b.call(1, 'B', r.choice(['throwstd', 'throwint', 'vthrowint', 'throwbig', 'throwempty', 'throwint'])))
            elif c < 0.5:
                x.append(b.call(1, 'B', r.choice(['echo', 'void', 'throwint', 'one', 'vthrowint']), shape=1))
            elif c < 0.65:
                x.append(b.call(1, 'B', r.choice(['nosuch', 'ech', 'echo1', 'nosuch2', 'Echo', 'no%ps%pn%pd%ps', '100%p', '%e', '%K', '%K' + 'x' * r.randrange(24), '%K%K%K'])))
            elif c < 0.8 and zs:
                x.append(b.call(1, 'B', 'z%d' % zs.pop(), shape=2))
            else:
                x.append(b.call(1, 'B', 'echo'))
        x.append(b.call(1, 'B', 'echo', kind='s'))
        x.append('await')
        b.actor(1, x)


# ---------------------------------------------------------------- registry
@family('reg', 'C14')
def reg(b, r):
    b.timing(0.3)
    b.inst(1, 1, 'A')
    b.inst(2, 2, 'B')
    names = ['f1', 'f2', 'f3'][:r.choice([1, 2, 3])]
    o = ['new 2', 'bind 2 stay echo', 'bind 2 %e echo']
    for f in names:
        if r.random() < 0.5:
            o.append('bind 2 %s %s' % (f, r.choice(['echo', 'void', 'throwstd'])))
    if r.random() < 0.3:
        o.append('names 2')
    o += ['init 2', 'set u']

    def churn(k):
        x = []
        for _ in range(k):
            f = r.choice(names)
            c = r.random()
            if c < 0.45:
                x.append('bind 2 %s %s' % (f, r.choice(['echo', 'void', 'throwstd', 'echo'])))
            elif c < 0.8:
                x.append('unbind 2 ' + f)
            elif c < 0.9:
                x.append('names 2')
            else:
                x.append('unbind 2 ' + r.choice(['never', 'f', 'f11']))
            if r.random() < 0.3:
                x.append('usleep %d' % r.randrange(1, 300))
        return x
    seq = r.random() < 0.35
    b.actor(2, o + (['wait d'] if seq else []) + churn(r.choice([4, 8, 14])) + ['names 2', 'set e'])
    if r.random() < 0.4 and not seq:
        b.actor(2, ['wait u'] + churn(6))

    def calls(k):
        return [b.call(1, 'B', r.choice(names + ['stay'] * 2), b.size(False)) for _ in range(k)]
    b.actor(1, b.server(1) + ['wait u', 'set go'] + calls(r.choice([2, 4])) + ['set d'] + (['wait e'] if seq else []) + calls(r.choice([2, 4])) + ['await'])
    if r.random() < 0.6:
        b.actor(1, ['wait go'] + calls(r.choice([2, 4, 6])) + ['await'])


@family('regseq', 'C14')
def regseq(b, r):
    """one thread binds, unbinds, lists and calls its own instance: exact answers"""
    b.timing(0.1)
    b.inst(1, 1, 'A')
    names = ['g', 'g1', 'g_']
    x = ['new 1']
    if r.random() < 0.7:
        x.append('init 1')
        up = True
    else:
        up = False
    for _ in range(r.choice([8, 14, 20])):
        c = r.random()
        f = r.choice(names)
        if c < 0.3:
            x.append('bind 1 %s %s' % (f if r.random() < 0.93 else '%e', r.choice(['echo', 'void', 'throwstd', 'echo'])))
        elif c < 0.45:
            x.append('unbind 1 ' + f)
        elif c < 0.6:
            x.append('names 1')
        elif c < 0.68:
            x.append('uninit 1')
            if r.random() < 0.7:
                x.append('names 1')
            x.append('init 1')
        else:
            x.append(b.call(1, 'A', f, 8, 1000, kind=r.choice('sssp')))
    if not up:
        x.insert(len(x) // 2, 'init 1')
    x += ['names 1', 'await']
    b.actor(1, x)


@family('rebind', 'C14')
def rebind(b, r):
    """functions are unbound, and bound anew, while calls of them are being executed"""
    b.timing(0.15)
    b.inst(1, 1, 'A')
    b.inst(2, 2, 'B')
    sl = b.plan(['sleep %d' % r.choice([40, 90])])
    wm = b.plan(['sleep 3'])
    names = ['f', 'g'] if r.random() < 0.4 else ['f']
    kinds = ['echo', 'void', 'throwstd']
    o = ['new 2'] + ['bind 2 %s echo' % f for f in names] + ['init 2', 'set u']
    x = b.server(1) + ['wait u']
    if r.random() < 0.8:
        for _ in range(3):  # every executor has run it
            x.append(b.call(1, 'B', 'f', 5, 2000, kind='p', plan=wm))
        x.append('await')
    for k in range(r.choice([1, 2, 3])):
        for _ in range(r.choice([0, 1, 1, 2])):
            x.append(b.call(1, 'B', r.choice(names), 5, 2000, kind=r.choice('pc'), plan=sl))
        x += ['sleep 5', 'set a%d' % k, 'wait b%d' % k]
        for _ in range(r.choice([1, 3, 4])):
            x.append(b.call(1, 'B', r.choice(names), 5, 2000, kind=r.choice('ssp'), plan=r.choice([0, 0, wm])))
        if r.random() < 0.5:
            x.append('await')
        o.append('wait a%d' % k)
        c = r.random()
        f = r.choice(names)
        if c < 0.9:
            o.append('unbind 2 ' + f)
        if c < 0.2:
            o += ['bind 2 %s %s' % (f, r.choice(kinds)), 'unbind 2 ' + f]
        if c > 0.5:
            o.append('bind 2 %s %s' % (f, r.choice(kinds)))
        if r.random() < 0.2:
            o.append('names 2')
        o.append('set b%d' % k)
    b.actor(2, o)
    b.actor(1, x + ['await'])


# ---------------------------------------------------------------- absent channels
@family('absent', 'C11')
def absent(b, r):
    b.timing(0.15)
    b.inst(1, 1, 'A')
    b.inst(2, 2, 'B')
    bad = ['Z', 'Z%sY', '%e', 'a%Lb', '..', 'B_call'] if r.random() < 0.4 else ['Z', 'Y']
    n = r.choice([1, 2, 3])
    for k in range(n):
        x = b.server(1) + ['set go'] if k == 0 else ['wait go']
        for _ in range(r.choice([1, 2, 4])):
            x.append(b.call(1, r.choice(['B', 'B'] + bad), 'echo', b.size(False), r.choice([300, 1500])))
        if k == 0:
            x += ['await', 'set failed']
        x.append('wait up')
        for _ in range(r.choice([1, 2, 3])):
            x.append(b.call(1, 'B', 'echo', b.size(False), 1500))
        x.append('await')
        b.actor(1, x)
    conc = r.random() < 0.5
    o = ['new 2', 'bind 2 echo echo']
    if conc:
        o += ['wait go', 'usleep %d' % r.randrange(1, 2000)]
    else:
        o += ['wait failed', 'sleep 5']
    o += ['init 2', 'set up', b.call(2, 'A', 'echo', 10, 1500, kind='s')]
    if r.random() < 0.4:
        o += ['sleep 50', 'uninit 2', 'set gone']
        b.actors[0][1].extend(['wait gone', b.call(1, 'B', 'echo', 10, 1500), b.call(1, 'B', 'echo', 10, 1500), 'await'])
    b.actor(2, o)


# ---------------------------------------------------------------- full queues
@family('full', 'C09')
def full(b, r):
    # timeouts of weeks: a reply must not get lost then
    ages = r.choice([2147484, 2147483648, 4294968, 4295000, 4294967295]) if r.random() < 0.12 else 0
    b.timing(0 if ages else 0.2)
    cap = r.choice([1, 1, 2] if ages else [1, 1, 2, 3, 4])
    size = r.choice([200, 300, 700]) * b.huge()
    b.inst(1, 1, 'A', 16, max(1024, size) if ages else 1024)
    b.inst(2, 2, 'B', cap, size)
    slow = [b.plan(['sleep %d' % d]) for d in (r.choice([10, 30]), r.choice([80, 200]), r.choice([400, 600]))]
    b.actor(2, b.server(2) + ['set u'])
    total = cap * size
    for k in range(r.choice([1, 2, 3])):
        x = b.server(1) + ['wait u', 'set go'] if k == 0 else ['wait go']
        for _ in range(r.choice([4, 6, 9])):
            c = r.random()
            if c < 0.15:
                sz = r.choice([total + 1, total + 300, total - 30, total - 10])
            elif c < 0.3:
                sz = max(0, total - r.choice([60, 70, 80, 100, 150]))
            else:
                sz = r.choice([0, 10, min(100, size), size // 2 if b.scale > 1 else 20])
            x.append(b.call(1, 'B', 'echo', sz, ages or r.choice([60, 150, 300, 800, 2500]), plan=r.choice(slow if ages else [0, 0] + slow), kind=r.choice('ppc' if ages else 'sppc')))
        x.append('await')
        x.append(b.call(1, 'B', 'echo', 5, ages or 3000, kind='s'))
        b.actor(1, x)


@family('flood', 'C09', 'C08')
def flood(b, r):
    """many callers, fast functions, tiny queue: everything fits in time"""
    b.timing(0.25)
    b.inst(2, 9, 'B', r.choice([1, 2]), r.choice([180, 300]))
    b.actor(9, b.server(2) + ['set u'])
    n = r.choice([1, 2, 3])
    for i in range(n):
        b.inst(10 + i, 1 + i, 'PQR'[i], 16, 512)
        b.actor(1 + i, b.server(10 + i) + ['wait u', 'set g%d' % i] + [b.call(10 + i, 'B', 'echo', r.choice([0, 20, 60]), 3000, kind=r.choice('spc')) for _ in range(r.choice([3, 5]))] + ['await'])
        if r.random() < 0.6:
            b.actor(1 + i, ['wait g%d' % i] + [b.call(10 + i, 'B', 'echo', r.choice([0, 20, 60]), 3000) for _ in range(3)] + ['await'])


@family('respfull', 'C09', 'C01')
def respfull(b, r):
    """the caller's response queue is tiny"""
    b.timing(0.2)
    b.inst(1, 1, 'A', r.choice([1, 2]), r.choice([200, 400]))
    b.inst(2, 2, 'B', 16, 1024)
    b.actor(2, b.server(2, ('echo', 'void', 'throwbig')) + ['set u'])
    # callbacks that keep the threads that take the replies busy: the queue stays full for a while
    lazy = [b.plan(['sleep %d' % r.choice([20, 60, 100, 150])]) for _ in range(2)]
    slow = r.random() < 0.5
    for k in range(r.choice([1, 2])):
        x = b.server(1) + ['wait u', 'set go'] if k == 0 else ['wait go']
        for _ in range(r.choice([4, 6]) + 4 * slow):
            if slow and r.random() < 0.7:
                x.append(b.call(1, 'B', 'echo', r.choice([0, 20, 90]), r.choice([2500, 4000]), kind='c', cbplan=r.choice(lazy)))
                continue
            x.append(b.call(1, 'B', r.choice(['echo', 'echo', 'void', 'throwbig']), r.choice([0, 20, 90, 150, 500]), r.choice([400, 1500])))
        x.append(b.call(1, 'B', 'echo', 5, 3000, kind='s'))
        x.append('await')
        b.actor(1, x)


@family('grow', 'C08', 'C01')
def grow(b, r):
    """ever larger messages: the buffers of the readers have to grow"""
    b.timing(0.2)
    n = r.choice([8, 16])
    b.inst(1, 1, 'A', n, 100000)
    b.inst(2, 2, 'B', n, 100000)
    b.actor(2, b.server(2) + ['set u'])
    k0 = r.choice([60000, 66000, 70000, 100000])
    for k in range(r.choice([1, 2, 3])):
        x = b.server(1) + ['wait u', 'set go'] if k == 0 else ['wait go']
        for j in range(r.choice([2, 3, 4])):
            x.append(b.call(1, 'B', 'echo', r.choice([5, k0, k0 << 1, (k0 << j) + 7 * k, k0 + r.randrange(60000)]), 2500, kind=r.choice('sppc')))
        x.append('await')
        b.actor(1, x)


# ---------------------------------------------------------------- timeouts
@family('tmo', 'C10')
def tmo(b, r):
    b.timing(0.1)
    b.inst(1, 1, 'A')
    b.inst(2, 2, 'B', r.choice([2, 8]), 512)
    b.inst(3, 3, 'C')
    pl = [b.plan(['sleep %d' % d]) for d in (40, 120, 350, 700)]
    b.actor(2, b.server(2) + ['set u2'])
    b.actor(3, b.server(3) + ['set u3'])
    mode = r.choice(['slow', 'slow', 'lock', 'kill', 'full', 'release', 'rw'])
    for k in range(r.choice([1, 2, 3])):
        x = b.server(1) + ['wait u2', 'wait u3', 'set go'] if k == 0 else ['wait go']
        if k == 0 and mode == 'rw':
            x.append('rw 1 %d' % r.choice([1, 5, 100, 300]))
        for _ in range(r.choice([2, 3, 5])):
            kind = r.choice('ssspc')
            x.append(b.call(1, r.choice('BBBC'), 'echo', b.size(False), r.choice([20, 50, 100, 300, 500, 1000]), plan=r.choice([0] + pl), kind=kind))
            if mode == 'release' and kind == 'p' and r.random() < 0.6:
                if r.random() < 0.5:
                    x.append('usleep %d' % r.randrange(1, 600))
                x.append('release')
        x.append('sleep %d' % r.choice([1, 900]))
        x.append(b.call(1, 'C', 'echo', 10, 1500, kind='s'))
        x.append('await')
        b.actor(1, x)
    if mode in ('lock', 'rw'):
        x = ['wait go']
        for _ in range(r.choice([1, 2, 3])):
            x += ['usleep %d' % r.randrange(1, 1500), 'lockq %s %s %d' % (r.choice('ABB'), r.choice(['call', 'resp']), r.choice([10, 35, 100, 600]))]
        b.actor(9, x)
    if mode == 'kill':
        b.actor(9, ['wait go', 'usleep %d' % r.randrange(1, 3000), 'kill 2'])
    if mode == 'full':
        b.actor(9, ['wait go'] + ['inject B call ints5'] * 1)


# ---------------------------------------------------------------- locks held by others, signals without messages
@family('lock', 'C08')
def lock(b, r):
    b.timing(0.3)
    b.inst(1, 1, 'A')
    b.inst(2, 2, 'B')
    b.actor(2, b.server(2) + ['set u', 'wait go'] + ([b.call(2, 'A', 'echo', 10, 2000) for _ in range(2)] + ['await'] if r.random() < 0.5 else []))
    for k in range(r.choice([1, 2])):
        x = b.server(1) + ['wait u', 'set go'] if k == 0 else ['wait go']
        if k == 0 and r.random() < 0.25:
            x.append('rw 1 %d' % r.choice([1, 3, 100]))
        for _ in range(r.choice([3, 5])):
            x.append(b.call(1, 'B', 'echo', b.size(False), 2000))
            if r.random() < 0.4:
                x.append('sleep %d' % r.choice([1, 20, 45]))
        x += ['await']
        b.actor(1, x)
    for k in range(r.choice([1, 2])):
        x = ['wait go']
        for _ in range(r.choice([1, 2, 3])):
            c = r.random()
            if c < 0.7:
                x += ['usleep %d' % r.randrange(1, 900), 'lockq %s %s %d' % (r.choice('AB'), r.choice(['call', 'resp']), r.choice([5, 28, 31, 45, 100]))]
            else:
                x += ['notify %s %s %d' % (r.choice('AB'), r.choice(['call', 'resp']), r.choice([1, 2, 5]))]
        b.actor(8 + k, x)


# ---------------------------------------------------------------- shutdown
@family('shut', 'C13')
def shut(b, r):
    if r.random() < 0.3:
        return r.choice([backlog, noroom, unheard])(b, r)
    b.timing(0.3)
    b.inst(1, 1, 'A', r.choice([1, 8]), 512)
    b.inst(2, 2, 'B', r.choice([1, 8]), 512)
    b.inst(3, 3, 'C')
    pl = [b.plan(['sleep %d' % d]) for d in (20, 150, 400)] + [b.plan(['call 2 s C echo 5 800'])]
    who = r.choice([1, 1, 2])
    b.actor(2, b.server(2) + ['set u2'])
    b.actor(3, b.server(3) + ['set u3', 'wait go'] + [b.call(3, r.choice('AB'), 'echo', 10, r.choice([100, 1000]), plan=r.choice([0] + pl[:3])) for _ in range(r.choice([1, 3]))] + ['await'])
    for k in range(r.choice([1, 2, 3])):
        x = b.server(1) + ['wait u2', 'wait u3', 'set go'] if k == 0 else ['wait go']
        for _ in range(r.choice([2, 4, 6])):
            x.append(b.call(1, r.choice('BBCAZ'), 'echo', r.choice([0, 20, 100, 3000]), r.choice([100, 500, 2000]), plan=r.choice([0, 0] + pl), kind=r.choice('spc'),
                            cbplan=0))
        x.append('await' if r.random() < 0.7 else 'sleep 1')
        b.actor(1, x)
    x = ['wait go', 'usleep %d' % r.choice([1, 20, 60, 200, 700, 3000, 30000]), 'uninit %d' % who]
    if r.random() < 0.5:
        x += ['sleep %d' % r.choice([0, 5, 100]), 'bind %d echo echo' % who, 'init %d' % who, 'set again', b.call(who, 'C', 'echo', 10, 1500, kind='s')]
        b.actor(3, ['wait u3', 'wait again', b.call(3, 'AB'[who - 1], 'echo', 10, 1500, kind='s')])
    else:
        x += [b.call(who, 'C', 'echo', 5, 300), b.call(who, 'C', 'echo', 5, 300, kind='s'), b.call(who, 'C', 'echo', 5, 300, kind='c'), 'await']
        if r.random() < 0.3:
            x.append('uninit %d' % who)
    b.actor(who, x)
    if r.random() < 0.3:
        b.actor(who, ['wait go'] + ['peek %d' % who, 'usleep %d' % r.choice([10, 100, 900])] * 3)


def unheard(b, r):
    """uninit while bound functions wait for results that never come"""
    b.timing(0.2)
    b.inst(1, 1, 'A', 8, 512)
    b.inst(2, 2, 'B', 8, 512)
    b.inst(3, 3, 'C')
    n = r.choice([1, 1, 2, 3])
    pl = [b.plan(r.choice([['call 2 p C echo 5 2000', 'await'], ['call 2 s C echo 5 60000'], ['call 2 p C echo 5 500', 'call 2 c C echo 5 500', 'await']])) for _ in range(n)]
    b.actor(3, b.server(3) + ['set u3'])
    b.actor(2, b.server(2) + ['wait u3', b.call(2, 'C', 'echo', 5, 1000, kind='s'), 'set u2'])
    b.actor(9, ['wait u2', 'kill 3', 'set dead'])
    x = b.server(1) + ['wait dead'] + [b.call(1, 'B', 'echo', r.choice([0, 20]), 3000, plan=p, kind=r.choice('pc')) for p in pl] + ['set go']
    b.actor(1, x + ['await'])
    b.actor(2, ['wait go', 'usleep %d' % r.choice([300, 900, 3000, 30000]), 'uninit 2', 'set down'])


def backlog(b, r):
    """uninit with more slow calls queued than there are workers"""
    b.timing(0.1)
    b.inst(1, 1, 'A', r.choice([8, 16]), 512)
    b.inst(2, 2, 'B', 16, 512)
    pl = [b.plan(['sleep %d' % d]) for d in (40, 150, 400)]
    b.actor(2, b.server(2) + ['set u2'])
    x = b.server(1) + ['wait u2', 'set go']
    for _ in range(r.choice([5, 8, 12])):
        x.append(b.call(1, 'B', 'echo', r.choice([0, 20]), r.choice([500, 3000]), plan=r.choice(pl), kind=r.choice('pcp')))
    b.actor(1, x + ['await'])
    x = ['wait go', 'usleep %d' % r.choice([500, 3000, 30000, 200000]), 'uninit 2']
    if r.random() < 0.5:
        x += ['bind 2 echo echo', 'init 2', b.call(2, 'A', 'echo', 10, 1500), 'await']
    b.actor(2, x)


def noroom(b, r):
    """uninit while calls or replies of the instance wait for room in a queue nobody empties for a while"""
    b.timing(0.1)
    b.inst(1, 1, 'A', r.choice([1, 2, 16]), 512)
    b.inst(2, 2, 'B', r.choice([1, 2]), 512)
    b.inst(3, 3, 'C', 16, 512)
    p = b.plan(['sleep %d' % r.choice([900, 1800])])
    b.actor(2, b.server(2) + ['set u2'])
    b.actor(3, b.server(3) + ['set u3', 'wait go'] + [b.call(3, 'A', 'echo', 10, 1500) for _ in range(r.choice([0, 2]))] + ['await'])
    x = b.server(1) + ['wait u2', 'wait u3']
    # three workers busy, the queue full, the rest waits
    x += [b.call(1, 'B', 'echo', 5, 3000, kind='p', plan=p) for _ in range(3)] + ['sleep 2', 'set go']
    x += [b.call(1, 'B', 'echo', r.choice([5, 300]), r.choice([700, 2500]), kind=r.choice('pc')) for _ in range(r.choice([3, 5, 7]))] + ['await']
    b.actor(1, x)
    x = ['wait go', 'usleep %d' % r.choice([100, 3000, 30000, 200000]), 'uninit 1']
    if r.random() < 0.5:
        x += ['bind 1 echo echo', 'init 1', b.call(1, 'C', 'echo', 10, 1500), 'await']
    b.actor(1, x)


@family('conc', 'C22')
def conc(b, r):
    """many threads use one instance in every way it can be used, while it serves and is served"""
    b.timing(0.25)
    b.inst(1, 1, 'A', r.choice([1, 2, 8]), 512)
    b.inst(2, 2, 'B', r.choice([2, 8]), 512)
    b.huge(0.1)
    pl = [b.plan(['call 2 s A echo 5 800']), b.plan(['sleep 15']), b.plan(['call 2 c A echo 3 800'])]
    cb = b.plan(['call 1 p B echo 4 700'])
    fns = ['echo', 'echo', 'throwstd', 'void']
    b.actor(2, b.server(2, STD) + ['set u2', 'wait go', b.call(2, 'A', 'echo', 9), b.call(2, 'A', 'f1', 9), 'await'])
    down = r.random() < 0.4
    end = []
    for k in range(r.choice([2, 3, 4])):
        x = b.server(1, STD) + ['wait u2', 'set go'] if k == 0 else ['wait go']
        for _ in range(r.choice([3, 5, 8])):
            c = r.random()
            if c < 0.6:
                x.append(b.call(1, r.choice('BBBAZ'), r.choice(fns), b.size(False), r.choice([1000, 2000, 60]), plan=r.choice([0, 0, 0] + pl), cbplan=r.choice([0, 0, cb])))
            elif c < 0.7:
                x.append('bind 1 f%d echo' % r.choice([1, 2]))
            elif c < 0.78:
                x.append('unbind 1 f%d' % r.choice([1, 2]))
            elif c < 0.84:
                x.append('names 1')
            elif c < 0.92:
                x.append('peek 1')
            elif c < 0.95:
                x.append('rw 1 %d' % r.choice([0, 20, 40]))
            elif c < 0.97:
                x.append('release')
            else:
                x.append('usleep %d' % r.choice([3, 50, 700]))
        if not down or r.random() < 0.7:
            x.append('await')
        end.append('z%d' % k)
        b.actor(1, x + ['set z%d' % k])
    if down:
        b.actor(1, ['wait go', 'usleep %d' % r.choice([1, 30, 150, 600, 4000]), 'uninit 1', 'peek 1'])
        b.actor(1, ['wait go'] + ['peek 1', 'usleep %d' % r.choice([10, 100, 900])] * 3)
    else:
        b.actor(1, ['wait ' + z for z in end] + ['peek 1', 'uninit 1', 'peek 1'])


@family('uninitialised', 'C13', 'C01')
def uninitialised(b, r):
    """calls on an instance that was never initialised, or not successfully, or is not any more"""
    b.timing(0)
    b.inst(1, 1, 'A')
    b.inst(2, 2, 'B')
    b.actor(2, b.server(2) + ['set u', 'wait d', b.call(2, 'A', 'echo', 5, 400, kind='s')])
    x = ['new 1', 'wait u']
    for _ in range(3):
        x.append(r.choice([b.call(1, 'B', 'echo', 5, 500), 'uninit 1', 'init 1 %s'.replace('%s', '%e'), 'names 1', 'release']))
    x += ['await', 'bind 1 echo echo', 'init 1', b.call(1, 'B', 'echo', 5, 1500, kind='s'), 'uninit 1', b.call(1, 'B', 'echo', 5, 500), b.call(1, 'B', 'echo', 5, 500), 'await', 'set d']
    b.actor(1, x)


# ---------------------------------------------------------------- malformed messages
INJ_CALL = ['garbage', 'garbage', 'c1', 'int', 'nil', 'str', 'map', 'bin5', 'str5', 'arr0', 'arr3', 'ints5', 'ints4', 'flag1call {ch}', 'six {ch}', 'badargs {ch}', 'fewargs {ch}',
            'nocaller', 'ghostcaller', 'unknownid', 'trunc {ch}', 'truncresp', 'biglen', 'bigarr', 'deep', 'two', 'emptyid', 'flag0resp']


@family('mal', 'C16')
def mal(b, r):
    b.timing(0.2)
    b.inst(1, 1, 'A')
    b.inst(2, 2, 'B')
    b.actor(2, b.server(2, ('echo', 'void')) + ['set u', 'wait go', b.call(2, 'A', 'echo', 10, 1500), 'await', 'wait inj', b.call(2, 'A', 'echo', 10, 1500, kind='s')])
    sl = b.plan(['sleep %d' % r.choice([5, 60])])
    for k in range(r.choice([1, 2])):
        x = b.server(1) + ['wait u', 'set go'] if k == 0 else ['wait go']
        for j in range(r.choice([2, 3, 4])):
            x.append(b.call(1, 'B', r.choice(['echo', 'echo', 'void']), b.size(False), 1500, plan=r.choice([0, sl]), label='L%d%d' % (k, j)))
        x += ['await', 'wait inj', b.call(1, 'B', 'echo', 7, 1500, kind='s'), b.call(1, 'B', 'echo', 8, 1500), 'await']
        b.actor(1, x)
    for k in range(r.choice([1, 2])):
        x = ['wait go']
        for _ in range(r.choice([2, 4, 7])):
            ch = r.choice('AB')
            q = r.choice(['call', 'resp'])
            c = r.random()
            if c < 0.75:
                x.append(('inject %s %s %s' % (ch, q, r.choice(INJ_CALL))).replace('{ch}', r.choice('AB')))
            else:
                x.append('inject A resp %s L0%d' % (r.choice(['dup', 'forge', 'interr', 'idprefix', 'idlonger', 'forgeflag', 'dup']), r.choice([0, 1])))
            if r.random() < 0.4:
                x.append('usleep %d' % r.randrange(1, 400))
        x.append('sleep 3')
        x.append('set inj')
        b.actor(8 + k, x)


@family('dup', 'C01', 'C16')
def dup(b, r):
    """replies that arrive twice, or for calls already given up"""
    b.timing(0.3)
    b.inst(1, 1, 'A')
    b.inst(2, 2, 'B')
    sl = b.plan(['sleep %d' % r.choice([5, 20])])
    b.actor(2, b.server(2) + ['set u'])
    x = b.server(1) + ['wait u']
    for j in range(3):
        x.append(b.call(1, 'B', 'echo', 10, r.choice([50, 1500]), plan=r.choice([0, sl]), label='L%d' % j, kind=r.choice('pcps')))
        if j == 0:
            x.append('set go')
        if r.random() < 0.2:
            x.append('release')
    x += ['await'] + [b.call(1, 'B', 'echo', 7, 1500) for _ in range(2)] + ['await']
    b.actor(1, x)
    for k in range(r.choice([1, 2])):
        y = ['wait go', 'usleep %d' % r.choice([1, 30, 100, 300])]
        for _ in range(r.choice([2, 4])):
            y.append('inject A resp %s L%d' % (r.choice(['dup', 'dup', 'interr', 'unknownid', 'idlonger', 'idprefix']), r.choice([0, 0, 1, 2])))
        b.actor(8 + k, y)


# ---------------------------------------------------------------- kills and restarts
@family('kill', 'C17')
def kill(b, r):
    b.timing(0.2)
    b.inst(1, 1, 'A')
    b.inst(2, 2, 'B', r.choice([2, 8]), 512)
    b.inst(3, 3, 'C')
    b.inst(4, 4, 'B')
    sl = b.plan(['sleep %d' % r.choice([5, 60])])
    b.actor(2, b.server(2) + ['set u2', 'wait go'] + [b.call(2, r.choice('AC'), 'echo', r.choice([0, 50, 300]), 800) for _ in range(r.choice([1, 3]))] + ['await', 'set done'])
    b.actor(3, b.server(3) + ['set u3', 'wait go'] + [b.call(3, r.choice('ABB'), 'echo', r.choice([0, 50, 300]), 800) for _ in range(r.choice([1, 3]))] + ['await'])
    x = b.server(1) + ['waitor u2 300', 'wait u3', 'set go']
    for _ in range(r.choice([2, 4])):
        x.append(b.call(1, r.choice('BBC'), 'echo', r.choice([0, 20, 100]), 800, plan=r.choice([0, 0, sl])))
    x += ['await', 'wait again']
    for _ in range(2):
        x.append(b.call(1, r.choice('BBC'), 'echo', 20, 1500, kind=r.choice('ssp')))
    x.append('await')
    b.actor(1, x)
    early = r.random() < 0.15
    b.actor(9, ([] if early else ['wait go']) + ['killat 2 %d' % r.choice([40, 150, 400, 1000]), 'sleep %d' % r.choice([1, 40, 900]), 'kill 2', 'sleep 1', 'set dead'])
    z = ['wait dead'] + b.server(4) + ['set again'] + [b.call(4, r.choice('AC'), 'echo', 20, 1500) for _ in range(2)] + ['await']
    b.actor(4, z)


@family('restart', 'C02')
def restart(b, r):
    """a caller is killed (or stops) and comes back on its channel while its old call is being executed"""
    b.timing(0.2)
    b.inst(1, 1, 'A')
    b.inst(2, 2, 'B')
    b.inst(3, 3, 'A')
    d = r.choice([3, 30, 200])
    sl = b.plan(['sleep %d' % d])
    b.actor(2, b.server(2, ('echo', 'e1')) + ['set u'])
    fn = r.choice(['echo', 'e1'])
    n = r.choice([1, 2, 3])
    b.actor(1, b.server(1) + ['wait u'] + [b.call(1, 'B', fn, 5, 1500, plan=sl, kind=r.choice('pc')) for _ in range(n)] + ['set go', 'await', 'set d1'])
    clean = r.random() < 0.3
    if clean:
        b.actor(1, ['wait go', 'usleep %d' % r.choice([100, 500, 1500]), 'uninit 1', 'set dead'])
    else:
        b.actor(9, ['wait go', 'usleep %d' % r.choice([1, 100, 500, 1500]), 'kill 1', 'set dead'])
    z = ['wait dead'] + b.server(3) + [b.call(3, 'B', fn, 5, 1500, plan=r.choice([0, sl]), kind=r.choice('spc')) for _ in range(n)] + ['await', 'sleep 250', b.call(3, 'B', fn, 5, 1500, kind='s')]
    b.actor(3, z)


@family('owner', 'C18')
def owner(b, r):
    b.timing(0.2)
    b.inst(1, 1, 'A')
    b.inst(2, 2, 'B', r.choice([4, 8]), r.choice([512, 1024]))
    b.inst(3, 3, 'C')
    b.inst(4, 4, 'B', r.choice([4, 8, 2]), r.choice([512, 256]))
    hold = b.plan(['sleep %d' % r.choice([20, 200])])
    early = r.random() < 0.7
    warm = lambda i: [b.call(i, 'B', 'echo', 10, 1500, kind=r.choice('sp')) for _ in range(r.choice([1, 2]))] + ['await'] if early else []
    b.actor(2, b.server(2) + ['set u2', 'wait w1', 'wait w3', b.call(2, 'A', 'echo', 5, 1000, kind='s'), 'set old'])
    b.actor(1, b.server(1) + ['wait u2'] + warm(1) + ['set w1', 'wait new'] + [b.call(1, 'B', 'echo', r.choice([5, 100]), 1500, plan=r.choice([0, 0, hold])) for _ in range(3)] + ['await'])
    b.actor(3, b.server(3) + ['wait u2'] + warm(3) + ['set w3'] + ([b.call(3, 'B', 'echo', 5, 1500, plan=hold)] if r.random() < 0.4 else []) +
            ['wait new'] + [b.call(3, 'B', 'echo', 5, 1500) for _ in range(2)] + ['await'])
    same = r.random() < 0.3
    c = r.random()
    if same:
        b.actor(2, ['wait old', 'uninit 2', 'bind 2 echo echo', 'init 2', 'set new'] + [b.call(2, r.choice('AC'), 'echo', 5, 1500) for _ in range(2)] + ['await'])
    elif c < 0.5:
        b.actor(2, ['wait old', 'uninit 2', 'set gone'])
    else:
        b.actor(9, ['wait old', 'kill 2', 'set gone'])
    if not same:
        b.actor(4, ['wait gone'] + (['sleep 30'] if r.random() < 0.3 else []) + b.server(4) + ['set new'] + [b.call(4, r.choice('AC'), 'echo', r.choice([5, 60]), 1500) for _ in range(3)] + ['await'])


@family('churn', 'C18')
def churn(b, r):
    """an instance that comes and goes while others keep calling it and it calls them"""
    b.timing(0.25)
    cap = lambda: (r.choice([1, 4, 8]), r.choice([300, 512]))
    b.inst(1, 1, 'A', 8, 512)
    b.inst(2, 2, 'B', *cap())
    b.inst(3, 3, 'C')
    us = lambda m: 'usleep %d' % r.randrange(1, m)
    pace = r.choice([100, 300, 900])
    rounds = r.choice([2, 3, 5])
    y = ['new 2', 'wait u1']
    for k in range(rounds):
        y += ['bind 2 echo echo', ('init 2 B %d %d' % cap()) if k and r.random() < 0.4 else 'init 2'] + (['set up'] if k == 0 else [])
        if r.random() < 0.5:
            y.append(b.call(2, 'A', 'echo', 5, 800, kind=r.choice('spc')))
        y += [us(6 * pace), 'uninit 2']
        if r.random() < 0.4:
            y.append(us(2 * pace))
    y += ['bind 2 echo echo', 'init 2', 'set last', b.call(2, 'A', 'echo', 5, 1500, kind='s')]
    b.actor(2, y)
    for k in range(r.choice([1, 2, 2])):
        x = b.server(1) + ['set u1', 'wait up'] if k == 0 else ['wait up']
        for _ in range(r.choice([4, 8, 12])):
            x.append(b.call(1, 'B', 'echo', r.choice([0, 20, 100]), r.choice([400, 1000]), kind=r.choice('ppcs')))
            if r.random() < 0.6:
                x.append(us(pace))
        x += ['await', 'wait last', b.call(1, 'B', 'echo', 5, 1500, kind='s')]
        b.actor(1, x)
    if r.random() < 0.5:
        b.actor(3, b.server(3) + ['wait up'] + sum([[b.call(3, r.choice('AB'), 'echo', 5, 600), us(pace)] for _ in range(r.choice([2, 5]))], []) + ['await'])


# ---------------------------------------------------------------- one peer that takes nothing
@family('hol', 'C23')
def hol(b, r):
    b.timing(0.1)
    b.inst(1, 1, 'A', 16, 1024)                       # the hub
    b.inst(2, 2, 'B', 1, 700)                         # takes one call at a time and is busy
    b.inst(3, 3, 'C', r.choice([8, 16]), 1024)        # healthy
    b.inst(4, 4, 'D', r.choice([1, 1, 2]), 700)       # takes no replies
    busy = b.plan(['sleep %d' % r.choice([150, 400, 900])])
    rep = b.plan(['sleep 20'])
    b.actor(2, b.server(2) + ['set u2'])
    b.actor(3, b.server(3) + ['set u3'])
    x = b.server(1) + ['wait u2', 'wait u3', 'set u1']
    if r.random() < 0.3:
        # somebody keeps the queue of B locked; the hub waits for it with one sender or two
        q = r.choice(['call', 'call', 'resp'])
        if r.random() < 0.8:
            x.append('rw 1 %d' % r.choice([200, 500, 1500, 2000]))
        if r.random() < 0.5:
            x += [b.call(1, 'C', 'echo', 5, 1000, kind='s')]
        if r.random() < 0.3:
            x += [b.call(1, 'B', 'echo', 5, 1000, kind='s')]
        x += ['set go', 'wait held']
        if q == 'call':
            for _ in range(r.choice([1, 1, 2])):
                x.append(b.call(1, 'B', 'echo', 5, 3000, kind=r.choice('pc')))
        else:
            b.actor(2, ['wait held', b.call(2, 'A', 'echo', 5, 2500, kind='p'), 'await'])
        x.append('sleep %d' % r.choice([1, 5, 40]))
        for _ in range(r.choice([1, 2, 3])):
            x.append(b.call(1, r.choice('CCD'), 'echo', r.choice([0, 20, 100]), r.choice([100, 150, 1000]), kind='s'))
        x += ['set done', 'await']
        b.actor(1, x)
        b.actor(4, b.server(4) + ['wait go'] + ([b.call(4, 'A', 'echo', 5, 1000, kind='s')] if r.random() < 0.4 else []))
        b.actor(3, ['wait u3', 'wait held', 'sleep %d' % r.choice([1, 50]), b.call(3, 'A', 'echo', 5, 1000, kind='s')])
        b.actor(9, ['wait go', 'lockq B %s %d held done' % (q, r.choice([100, 700, 1800]))])
        return
    calls, replies = r.choice([(1, 0), (0, 1), (1, 1), (1, 0), (0, 1)])
    if calls:
        # three executors of B busy, one call in its queue, then one that waits
        for _ in range(4):
            x.append(b.call(1, 'B', 'echo', r.choice([0, 20]), 2000, plan=busy, kind='p'))
            x.append('sleep 3')
        x.append('sleep 20')
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < 0.7:
                x.append(b.call(1, 'B', 'echo', 5, 2000, kind='p'))
        for _ in range(r.choice([1, 2])):
            x.append(b.call(1, 'C', 'echo', r.choice([0, 20, 100]), r.choice([50, 1000]), kind=r.choice('spc')))
    if replies:
        x.append('waitor done 4000')
    x.append('await')
    b.actor(1, x)
    if replies:
        n = r.choice([2, 3])
        # (they are executed at the same time; their replies meet at the senders of the hub)
        b.actor(4, b.server(4) + ['wait u1'] + [b.call(4, 'A', 'echo', r.choice([0, 50]), 1500, plan=rep, kind='p') for _ in range(n)] + ['set go', 'await'])
        b.actor(9, ['wait go', 'sleep %d' % r.choice([5, 12]), 'kill 4'])
        y = ['wait go'] + (['sleep %d' % r.choice([1, 25, 60])] if r.random() < 0.6 else [])
        for k in range(r.choice([2, 4])):
            y.append(b.call(3, 'A', 'echo', r.choice([0, 50]), r.choice([300, 1000]), kind=r.choice('spc'), plan=r.choice([0, rep])))
            if r.random() < 0.5:
                y.append('sleep %d' % r.choice([1, 10, 30]))
        b.actor(3, ['wait u3'] + y + ['await', 'set done'])


# ---------------------------------------------------------------- geometry
@family('geo', 'C19')
def geo(b, r):
    b.timing(0.15)
    g = [(1, 300), (1, 2000), (2, 150), (3, 700), (8, 128), (32, 512), (64, 4096), (5, 333), (3, 1001), (2, 90000), (3, 50000)]
    ga, gb = r.sample(g, 2)
    b.inst(1, 1, 'A', *ga)
    b.inst(2, 2, 'B', *gb)
    b.inst(3, 3, 'C', *r.choice(g))

    def sizes(tc, own):
        t = tc[0] * tc[1]
        w = own[0] * own[1]
        return r.choice([0, 10, 40, max(0, min(t, w) - 260), max(0, t - 60), max(0, t - 100), max(0, t - 300), max(0, t - 300), t // 2, t + 5, max(0, w - 90)])

    def fn(size):
        # (a large argument with a small answer, and the other way round)
        return r.choice(['echo', 'void', 'void']) if size > 200 else r.choice(['echo', 'echo', 'throwbig', 'void'])
    binds = ('echo', 'void', 'throwbig')

    def call(i, ch, sz):
        return b.call(i, ch, fn(sz), sz, 1200)
    b.actor(2, b.server(2, binds) + ['set u2', 'wait go'] + [call(2, 'A', sizes(ga, gb)) for _ in range(r.choice([1, 3]))] + ['await'])
    b.actor(3, b.server(3, binds) + ['set u3', 'wait go'] + [call(3, r.choice('AB'), r.choice([0, 30, 100])) for _ in range(2)] + ['await'])
    b.actor(1, b.server(1, binds) + ['wait u2', 'wait u3', 'set go'] + [call(1, r.choice('BBC'), sizes(gb, ga)) for _ in range(r.choice([2, 4]))] + ['await'])


# ---------------------------------------------------------------- nested calls
@family('nest', 'C20')
def nest(b, r):
    b.timing(0.25)
    b.inst(1, 1, 'A', 16, 512)
    b.inst(2, 2, 'B', 16, 512)
    b.inst(3, 3, 'C', 16, 512)
    # leaves
    leaf2 = [b.plan(['call 2 %s C echo 5 2000' % r.choice('s')]), b.plan(['call 2 p A echo 5 2000', 'await']), b.plan(['call 2 c C echo 5 2000']), b.plan(['call 2 s B echo 5 2000'])]
    deep = b.plan(['call 2 s C echo 5 2000 plan %d' % (len(b.plans) + 2)])
    b.plan(['call 3 s A echo 4 2000'])
    cb1 = [b.plan(['call 1 s B echo 5 2000']), b.plan(['call 1 p C echo 5 2000', 'await']), b.plan(['call 1 c B echo 5 2000'])]
    cbn = b.plan(['call 1 c C echo 5 2000 cbplan %d' % cb1[0]])
    cbw = b.plan(['call 1 c %s echo 5 2000' % r.choice('BC'), 'result'])  # waits inside the callback until another one has run
    b.actor(2, b.server(2) + ['set u2'])
    b.actor(3, b.server(3) + ['set u3'])
    x = b.server(1) + ['wait u2', 'wait u3', 'set go']
    # at most two calls whose function blocks in a nested call, at most two blocking callbacks at a time
    for _ in range(r.choice([1, 2, 3])):
        x.append(b.call(1, 'B', 'echo', 5, 2000, kind='s', plan=r.choice(leaf2 + [deep])))
        if r.random() < 0.5:
            x.append(b.call(1, r.choice('BC'), 'echo', 5, 2000, kind='c', cbplan=r.choice(cb1 + [cbn, cbw, cbw])))
            x.append('sleep 20')
    x.append('await')
    b.actor(1, x)
    if r.random() < 0.5:
        b.actor(3, ['wait go', 'wait u3', b.call(3, 'B', 'echo', 5, 2000, kind='s', plan=r.choice(leaf2)), b.call(3, 'A', 'echo', 5, 2000)] + ['await'])


# ---------------------------------------------------------------- lifecycle
@family('life', 'C12')
def life(b, r):
    b.timing(0.25)
    b.inst(1, 1, 'A')
    b.inst(2, 2 if r.random() < 0.7 else 1, 'B')
    x = ['new 1']
    for k in range(r.choice([4, 7, 10])):
        c = r.random()
        if c < 0.3:
            x.append('init 1 %s %d %d' % (r.choice(['A', 'A', 'A2']), r.choice([1, 4, 16]), r.choice([64, 512])))
        elif c < 0.42:
            x.append('init 1 %s 8 512' % r.choice(['%e', 'q%sw', 'w%Lw', 'v%s']))
        elif c < 0.55:
            x.append('init 1 A %d %d' % r.choice([(0, 512), (0, 0), (4294967295, 512), (2147483648, 64)]))
        elif c < 0.85:
            x.append('uninit 1')
            if r.random() < 0.2:
                x.append('uninit 1')
        elif c < 0.93:
            x.append('bind 1 %s echo' % r.choice(['echo', 'h']))
        else:
            x.append(b.call(1, 'B', 'echo', 5, 600, kind=r.choice('spc')))
        if c < 0.85 and k % 2:
            x.append('peek 1')
    x += ['uninit 1', 'bind 1 echo echo', 'init 1 A 8 512', 'set u1', b.call(1, 'A', 'echo', 5, 1500, kind='s'), 'wait u2', b.call(1, 'B', 'echo', 5, 1500, kind='s'), 'await']
    if r.random() < 0.3:
        x += ['uninit 1', 'del 1']
    b.actor(1, x)
    b.actor(b.insts[1][1], b.server(2) + ['set u2', 'wait u1', b.call(2, 'A', 'echo', 5, 600), 'await'])


@family('initfail', 'C12')
def initfail(b, r):
    """the system refuses something while init is under way"""
    b.timing(0)
    b.inst(1, 1, 'A')
    b.inst(2, 2, 'B')
    x = ['new 1', 'bind 1 echo echo', 'wait f0', 'failnth %d' % r.randrange(1, 22), 'init 1', 'failnth 0', 'set f1', 'wait f2', 'uninit 1', 'bind 1 echo echo', 'bind 1 k echo', 'failnth 0', 'init 1', 'set u1', 'wait u2',
         b.call(1, 'B', 'echo', 5, 1500, kind='s')]
    b.actor(1, x)
    b.actor(2, b.server(2) + ['set f0', 'wait f1', b.call(2, 'A', 'echo', 5, 1500, kind='s'), 'set f2', 'set u2', 'wait u1', b.call(2, 'A', 'echo', 5, 1500, kind='s')])


@family('taken', 'C12', 'C18')
def taken(b, r):
    """a name is used by one instance after the other, in one process or in several"""
    b.timing(0.2)
    b.inst(1, 1, 'A')
    p2 = r.choice([1, 2])
    b.inst(2, p2, 'A', r.choice([8, 3]), r.choice([512, 200]))
    b.inst(3, 3, 'B')
    n = r.choice([1, 2])
    b.actor(3, b.server(3) + ['set u3'] + sum([['wait r%d' % k, b.call(3, 'A', 'echo', 5, 1200), b.call(3, 'A', 'echo', 5, 1200), 'await', 'set s%d' % k] for k in range(2 * n)], []))
    x, y = ['new 1', 'wait u3'], ['new 2']
    for k in range(n):
        x += (['wait t%d' % (2 * k - 1)] if k else []) + ['bind 1 echo echo', 'init 1', 'set r%d' % (2 * k), 'wait s%d' % (2 * k), b.call(1, 'B', 'echo', 5, 1200, kind='s'), 'uninit 1', 'set t%d' % (2 * k)]
        y += ['wait t%d' % (2 * k), 'bind 2 echo echo', 'init 2', 'set r%d' % (2 * k + 1), 'wait s%d' % (2 * k + 1), b.call(2, 'B', 'echo', 5, 1200, kind='s'), 'uninit 2', 'set t%d' % (2 * k + 1)]
    b.actor(1, x)
    b.actor(p2, y)


if __name__ == '__main__':
    import sys
    t, p = gen(sys.argv[1], int(sys.argv[2]))
    print(t)
