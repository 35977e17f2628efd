"""Behaviours printed by TLC -> cases replayed into the real components by sim/unit."""
import json, random, collections, concurrent.futures as cf, os, re, subprocess, tempfile, time
import trace


def tla_value(s, i=0):
    """a TLA+ value made of <<>>, numbers and strings, as printed by TLC"""
    stack = []
    n = len(s)
    while i < n:
        c = s[i]
        if s.startswith('<<', i):
            stack.append([])
            i += 2
        elif s.startswith('>>', i):
            v = tuple(stack.pop())
            i += 2
            if not stack:
                return v, i
            stack[-1].append(v)
        elif c == '"':
            j = s.index('"', i + 1)
            stack[-1].append(s[i + 1:j])
            i = j + 1
        elif c == '-' or c.isdigit():
            j = i + 1
            while j < n and s[j].isdigit():
                j += 1
            stack[-1].append(int(s[i:j]))
            i = j
        elif c == "{":
            stack.append([])
            i += 1
        elif c == "}":
            v = tuple(stack.pop())
            i += 1
            stack[-1].append(v)
        elif s.startswith('TRUE', i):
            stack[-1].append(True)
            i += 4
        elif s.startswith('FALSE', i):
            stack[-1].append(False)
            i += 5
        else:
            i += 1
    raise ValueError('not a TLA+ value')


def printed(out, tag):
    """the tuples <<tag, ...>> printed by TLC (PrintT may break long tuples over lines)"""
    res = []
    for m in re.finditer(r'^<< ?"%s",' % tag, out, re.M):
        v, _ = tla_value(out, m.start())
        res.append(v[1:])
    return res


def run(module, consts, init='Init', next_='Next', invariants=(), properties=(), extra=(), view=None, workers=1, heap='3g', env=None, timeout=1500, symmetry=None,
        constraint=None, spec=None):
    d = tempfile.mkdtemp(prefix='mc')
    name = 'MC' + module
    with open(os.path.join(d, name + '.tla'), 'w') as f:
        f.write('---- MODULE %s ----\nEXTENDS %s\n' % (name, module))
        for k, v in consts.items():
            f.write('MC%s == %s\n' % (k, v))
        f.write('====\n')
    cfg = open(os.path.join(d, name + '.cfg'), 'w')
    if consts:
        cfg.write('CONSTANTS\n' + ''.join('  %s <- MC%s\n' % (k, k) for k in consts))
    if spec:
        cfg.write('SPECIFICATION %s\n' % spec)
    else:
        cfg.write('INIT %s\nNEXT %s\n' % (init, next_))
    if view:
        cfg.write('VIEW %s\n' % view)
    if symmetry:
        cfg.write('SYMMETRY %s\n' % symmetry)
    if constraint:
        cfg.write('CONSTRAINT %s\n' % constraint)
    for i in invariants:
        cfg.write('INVARIANT %s\n' % i)
    for p in properties:
        cfg.write('PROPERTY %s\n' % p)
    cfg.write('CHECK_DEADLOCK FALSE\n')
    cfg.close()
    try:
        rc, out = trace.tlc(name + '.tla', name + '.cfg', env, workers=workers, heap=heap, extra=extra, timeout=timeout, cwd=d)
    finally:
        subprocess.run(['rm', '-rf', d])
    m = re.findall(r'(\d+) states generated, (\d+) distinct', out)
    st = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if rc != 0:
        k = out.find('Error:')
        raise trace.HarnessError('%s: TLC rc %d: %s' % (module, rc, out[k if k >= 0 else -2000:][:2500]))
    return out, st


def cover(edges, init, limit=400, only=None):
    """walks from init that together take every edge (or those of only); edges: (node, request, node)"""
    succ = collections.defaultdict(list)
    for k, (a, r, b) in enumerate(edges):
        succ[a].append((k, r, b))
    todo = {n: [e for e in es if only is None or e[0] in only] for n, es in succ.items()}
    left = sum(map(len, todo.values()))
    walks = []
    while left:
        at, walk = init, []
        while len(walk) < limit and left:
            if todo.get(at):
                # self loops first
                es = todo[at]
                j = next((i for i, e in enumerate(es) if e[2] == at), len(es) - 1)
                k, r, b = es.pop(j)
                walk.append(r)
                at = b
                left -= 1
                continue
            # nearest node with an edge to take
            prev, dq, goal = {at: None}, collections.deque([at]), None
            while dq:
                x = dq.popleft()
                if todo.get(x):
                    goal = x
                    break
                for k, r, b in succ[x]:
                    if b not in prev:
                        prev[b] = (x, r)
                        dq.append(b)
            if goal is None:
                break
            path, x = [], goal
            while prev[x]:
                path.append(prev[x][1])
                x = prev[x][0]
            walk += path[::-1]
            at = goal
        if not walk:
            raise trace.HarnessError('walks: %d edges cannot be reached' % left)
        walks.append(walk)
    return walks


def replay(unit, cases, tmp, jobs=8):
    """cases: (name, [line]); returns the reports that are not ok"""
    groups = [cases[k::jobs] for k in range(jobs)]
    ps = []
    for g, part in enumerate(groups):
        if not part:
            continue
        fn = os.path.join(tmp, 'u%d' % g)
        with open(fn, 'w') as f:
            for name, lines in part:
                f.write('#case %s\n%s\n' % (name, '\n'.join(lines)))
        ps.append((fn, subprocess.Popen([unit, fn, fn + '.out'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), len(part)))
    bad, ok = [], 0
    for fn, p, n in ps:
        err = p.communicate()[1]
        if p.returncode:
            raise trace.HarnessError('unit exit %d %s' % (p.returncode, err[-300:]))
        for line in open(fn + '.out', errors='replace'):
            w = line.rstrip('\n').split(' ', 2)
            if w[0] == 'ok':
                ok += 1
            elif w[0] == 'bad':
                bad.append((w[1], w[2]))
            else:
                raise trace.HarnessError('unit: ' + line)
    if ok + len(bad) != len(cases):
        raise trace.HarnessError('unit: %d reports for %d cases' % (ok + len(bad), len(cases)))
    return bad


def words(r):
    return ' '.join(str(x) for x in r)


QUICK_GEO = [(1, 1), (1, 3), (2, 2), (3, 2), (2, 4), (3, 3)]
DEEP_GEO = QUICK_GEO + [(4, 2), (2, 6), (4, 3), (3, 4), (5, 2), (1, 9)]


def queue_cases(tier, seed):
    """the whole transition graph of MsgQueue at small geometries, random walks at large ones"""
    cases, st = [], [0, 0]
    n_edges = 0
    geo = QUICK_GEO if tier == 'quick' else DEEP_GEO

    def one(g):
        return run('MsgQueue', {'Cap': g[0], 'Exp': g[1], 'Emit': 'TRUE'}, view='View', invariants=['TypeOK', 'Refines'], properties=['Steps'])
    with cf.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(one, geo))
    for (cap, exp), (out, s) in zip(geo, res):
        st[0] += s[0]
        st[1] += s[1]
        edges = [(a, tuple(r), b) for a, r, b in printed(out, 'E')]
        n_edges += len(edges)
        for k, w in enumerate(cover(edges, ((), 0))):
            # through one handle, through several, through several that come and go
            for v, (h, re_) in enumerate(((1, 0), (3, 0), (4, 20))):
                if v == 0 or (k + v) % 2 == 0 or tier != 'quick':
                    cases.append(('q-%d-%d-%d-%d' % (cap, exp, k, v), ['queue %d %d %d %d' % (cap, exp, h, re_)] + [words(r) for r in w]))
    num, depth = (60, 150) if tier == 'quick' else (600, 300)
    out, s = run('MsgQueueSim', {'Steps': depth}, invariants=['InRange'], extra=['-simulate', 'num=%d' % num, '-depth', str(depth + 1), '-seed', str(seed)])
    walks = []
    for v in printed(out, 'S'):
        if v[0] == 0:
            walks.append((v[1], v[2], []))
        walks[-1][2].append(v[3:])
    for k, (cap, exp, w) in enumerate(walks):
        cases.append(('qs-%d-%d-%d' % (cap, exp, k), ['queue %d %d %d %d' % (cap, exp, 1 + k % 4, 0 if k % 2 else 30)] + [words(r) for r in w]))
    st[0] += s[0]
    st[1] += s[1]
    return cases, st, {'edges_of_transition_graphs': n_edges, 'random_walks': len(walks), 'requests': sum(len(c[1]) - 1 for c in cases)}


def ms(t):
    return t[0] * 1000 + t[1]


DUR_ALL = [0, 1, 2, 3, 9, 10, 11, 30, 99, 100, 101, 499, 500, 501, 997, 998, 999, 1000, 1001, 1002, 1499, 1500, 1999, 2000, 2001, 2999, 3000, 3001, 9999, 10000,
           59999, 60000, 60001, 3600000, 86400000, 2147483647, 2147483648, 2147483999, 4294967295, 4294967296, 4294967297, 100000000000, 2000000000999]
# stand for the waits without end: negative ones, the call without a duration, and durations no test lives to see the end of
NEVER = ['-1', 'inf', '-1000', '-9223372036854775808', '-500', '9223372036854775807', '9007199254740993', '-2147483649', '-999', '-4294967296']


def tla_set(xs):
    return '{' + ', '.join(xs) + '}'


def dur_set(l, never=True):
    return tla_set(['<<%d, %d>>' % (x // 1000, x % 1000) for x in l] + (['<<-1, 0>>'] if never else []))


def sem_cases(tier, seed):
    quick = tier == 'quick'
    confs = [
        dict(Phases='{0, 1, 499, 500, 998, 999}' if quick else '{0, 1, 2, 3, 250, 499, 500, 501, 749, 750, 996, 997, 998, 999}', Durations=dur_set(DUR_ALL), Waits=1,
             Events=1 if quick else 2, Initial='{0, 1}', Fine='TRUE'),
        dict(Phases='{0, 999}' if quick else '{0, 1, 500, 999}', Durations=dur_set([0, 1, 500, 1500] if quick else [0, 1, 500, 999, 1000, 1500]), Waits=2 if quick else 3,
             Events=2, Initial='{0}', Fine='FALSE'),
    ]
    if not quick:
        confs.append(dict(Phases='{0, 1, 999}', Durations=dur_set([0, 1, 999, 1001]), Waits=2, Events=4, Initial='{0, 2}', Fine='FALSE'))

    def one(c):
        return run('TimedSem', c, invariants=['ValOK', 'NoEarly'], timeout=3000, heap='6g')
    with cf.ThreadPoolExecutor(3) as ex:
        res = list(ex.map(one, confs))
    cases, st, nb = [], [0, 0], 0
    for ci, (out, s) in enumerate(res):
        st[0] += s[0]
        st[1] += s[1]
        bs = sorted(set(printed(out, 'B')))
        nb += len(bs)
        for k, (phase, hist, val) in enumerate(bs):
            # where within the millisecond it starts
            for v, sub in enumerate(((0, 999999) if quick else (0, 1, 500000, 999999)) if ci == 0 else ((k * 333333) % 1000000,)):
                lines = ['sem %d %d %d' % (hist[0][1], 1 + k, phase * 1000000 + sub)]
                for n, h in enumerate(hist[1:]):
                    if h[0] == 'w':
                        d = NEVER[(k + n) % len(NEVER)] if h[1] == (-1, 0) else str(ms(h[1]))
                        lines.append('w %s %d %d %d' % (d, h[2], ms(h[3]) * 1000, 5000))
                    else:
                        lines.append('e %d %s %d' % (ms(h[1]) * 1000, h[2], h[3]))
                lines.append('v %d' % val)
                cases.append(('s%d-%d-%d' % (ci, k, v), lines))
    return cases, st, {'behaviours': nb, 'timed_wait_cases': len(cases)}


# ---------------------------------------------------------------- values
def value_cases(tier, seed):
    """the journeys of Value.tla, in random order: what a value becomes must not depend on those before it"""
    quick = tier == 'quick'
    out, st = run('Value', {'Deep': 'FALSE' if quick else 'TRUE'}, invariants=['Faithful', 'Generous', 'Round'], workers=4)
    js = sorted(set(printed(out, 'J')))
    r = random.Random(seed)
    cases, calls = [], 0
    good = [j for j in js if j[-1] != 'badarg']
    for rnd in range(3 if quick else 12):
        if rnd % 3 == 0:
            todo = js
            r.shuffle(todo)
        else:  # calls of the same function one after the other
            todo = sorted(good, key=lambda j: (j[1], j[4], r.random()))
        for k in range(0, len(todo), 200):
            lines = ['%s %s %s %s %d %s %s %s %s' % (a, b, c, v, at, ','.join(sig), ','.join(args), got, w) for a, b, c, v, sig, at, args, got, w in todo[k:k + 200]]
            calls += len(lines)
            cases.append(('v%d' % ((seed % 1000) * 100000 + 1000 * rnd + k // 200), lines))
    kinds = collections.Counter(j[-1] for j in js)
    return cases, st, {'journeys': len(js), 'calls': calls, **{'predicted_' + k: n for k, n in kinds.items()}}


# ---------------------------------------------------------------- usage
def usage_cases(tier, seed):
    """walks over the transition graph of Usage.tla; quick: over a random part of it"""
    quick = tier == 'quick'
    out, st = run('Usage', {'Insts': '1..2', 'Hows': '{"ok", "err", "throw", "bad", "big", "slow", "bigret"}'}, invariants=['Clean', 'Known', 'Bounded'], workers=4)
    edges = sorted(set(printed(out, 'E')), key=repr)
    init = next(e[0] for e in edges if e[0].startswith('<<{}, {}, ') and ':> 1' not in e[0] and ':> 2' not in e[0] and '1' not in e[0].rsplit(', <<', 1)[1])
    r = random.Random(seed)
    cases, ops = [], 0
    for rnd in range(1 if quick else 3):
        r.shuffle(edges)
        only = None
        if quick:  # of every kind of request the same share
            kinds = collections.defaultdict(list)
            for k, e in enumerate(edges):
                kinds[e[1][:1] + e[1][2:]].append(k)
            only = {k for ks in kinds.values() for k in ks[:9000 // len(kinds) + 1]}
        for k, w in enumerate(cover(edges, init, limit=r.choice((40, 70, 120)), only=only)):
            up, fn, lines = set(), set(), []
            for q in w:
                lines.append(words(q))
                if q[0] == 'init':
                    up.add(q[1])
                elif q[0] in ('uninit', 'abandon'):
                    up.discard(q[1])
                    fn.discard(q[1])
                elif q[0] == 'bind':
                    fn.add(q[1])
                elif q[0] in ('unbind', 'renew'):
                    fn.discard(q[1])
            lines += ['uninit %d' % i for i in sorted(up)] + ['unbind %d' % i for i in sorted(fn - up)]
            reps = 7
            ops += len(lines) * reps
            cases.append(('w%d-%d' % (rnd, k), reps, 1 + seed * 1000 + k, lines, 0))
    # instances that stay up: what they keep until they are uninitialised must not rise either
    stay = ('call', 'await', 'release', 'junk')
    calm = collections.defaultdict(list)
    for e in edges:
        if e[1][0] in stay:
            calm[e[0]].append(e)
    first = [('init', 1), ('init', 2), ('bind', 1), ('bind', 2)]
    at = init
    for q in first:
        at = next(b for a, x, b in edges if a == at and tuple(x) == q)
    for k in range(24 if quick else 160):
        node, lines = at, [words(q) for q in first]
        waits = False
        for _ in range(r.choice((20, 40))):
            kinds = collections.defaultdict(list)
            for e in calm[node]:
                kinds[e[1][0]].append(e)
            _, q, node = r.choice(kinds[r.choices([x for x in stay if x in kinds], [12 if x == 'call' else 1 for x in stay if x in kinds])[0]])
            lines.append(words(q))
            waits = q[0] == 'await' or (waits and q[0] != 'release')
        if waits:
            lines.append('release 1')
        reps = 8
        ops += len(lines) * reps
        cases.append(('s%d' % k, reps, 7 + seed * 1000 + k, lines, len(first)))
    return cases, st, {'edges_of_the_specification': len(edges), 'walks': len(cases), 'steps': ops}


def usage_replay(use, cases, tmp, jobs=8):
    """[(case name, what)]: what failed, and the levels that TLC does not accept"""
    groups = [cases[k::jobs] for k in range(jobs)]
    ps = []
    for g, part in enumerate(groups):
        if part:
            fn = os.path.join(tmp, 'w%d' % g)
            open(fn, 'w').write(''.join('#case %s %d %d %d\n%s\n' % (n, reps, sd, once, '\n'.join(l)) for n, reps, sd, l, once in part))
            ps.append((fn, subprocess.Popen([use, fn, fn + '.out'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    bad, walks_, names, seen = [], [], [], 0
    for fn, p in ps:
        err = p.communicate()[1]
        if p.returncode:
            raise trace.HarnessError('use exit %d %s' % (p.returncode, err[-300:]))
        for line in open(fn + '.out', errors='replace'):
            w = line.split()
            if w[0] == 'use':
                names.append(w[1])
                walks_.append([])
            elif w[0] == 'ok':
                seen += 1
            elif w[0] == 'bad':
                seen += 1
                bad.append((w[1], line.split(' ', 2)[2].strip()))
            elif w[0] == 'broken':
                raise trace.HarnessError('use: ' + line)
            else:
                v = [int(x) for x in w]
                walks_[-1].append([v[0], [v[k:k + 4] for k in range(1, len(v), 4)]])
    if seen != len(cases):
        raise trace.HarnessError('use: %d reports for %d cases' % (seen, len(cases)))
    tot = [0, 0]
    parts = [list(range(len(walks_)))[k::jobs] for k in range(jobs)]

    def judge(idx):
        if not idx:
            return [], (0, 0)
        f = os.path.join(tmp, 'us%d.json' % idx[0])
        json.dump([walks_[i] for i in idx], open(f, 'w'), separators=(',', ':'))
        out, st = run('UsageTrace', {'Insts': '1..2', 'Hows': '{"ok"}'}, env={'TRACES': f}, heap='2g')
        os.unlink(f)
        if len(re.findall(r'<<"DONE", ', out)) != len(idx):
            raise trace.HarnessError('UsageTrace: not all walks were judged')
        return [(idx[int(a) - 1], int(b) - 1) for a, b in re.findall(r'<<"VIOL", (\d+), (\d+),', out)], st
    with cf.ThreadPoolExecutor(jobs) as ex:
        for v, st in ex.map(judge, parts):
            tot = [tot[0] + st[0], tot[1] + st[1]]
            first = {}
            for i, b in v:
                first.setdefault(i, b)
            for i, b in first.items():
                bad.append((names[i], 'line %d: in use after it in each repetition (memory blocks, handles, threads, open files): %s' % (b + 1, walks_[i][b][1])))
    return bad, tot


# ---------------------------------------------------------------- lifecycle
BADNAME = {'empty': '%e', 'slash': 'q%sr', 'long': '%L'}
FN = {1: 'f', 2: 'f_2', 3: 'f1'}


def life_scenario(name, walk, opts=()):
    """a walk of Lifecycle.tla as a scenario of sim/drv: one actor per process, the requests one after another"""
    cur = {}          # slot -> instance
    insts, ops = [], {}
    chan = {}
    seq = []

    def fresh(slot):
        i = len(insts) + 1
        insts.append(i)
        cur[slot] = i
        ops[i] = ['new %d' % i]
        return i
    restarted = set()
    for k, r in enumerate(walk):
        slot = r[1]
        if slot not in cur:
            fresh(slot)
        i = cur[slot]
        o = []
        op = r[0]
        if op == 'init':
            c = 'AB CDEFG'.replace(' ', '')[r[2] - 1]
            nm = c if r[3] in ('good', 'nocap') else BADNAME[r[3]]
            g = ((8, 512), (16, 700), (5, 400), (32, 256))[k * 7 % 4]   # (another geometry each time)
            o.append('init %d %s %d %d' % (i, nm, 0 if r[3] == 'nocap' else g[0], g[1]))
            o.append('peek %d' % i)
            o.append('exp C12%s init %d %d' % (',C17' if c in restarted and r[4] else '', r[4], r[5]))
        elif op == 'uninit':
            o.append('uninit %d' % i)
        elif op == 'bind':
            o.append('bind %d %s echo' % (i, FN[r[2]] if r[2] else '%e'))
            o.append('exp C14 bind %d' % r[3])
        elif op == 'unbind':
            o.append('unbind %d %s' % (i, FN[r[2]]))
        elif op == 'names':
            o.append('names %d' % i)
            o.append('exp C14 names ' + ' '.join(FN[f] for f in r[2]))
        elif op == 'call':
            c = 'ABCDEFG'[r[2] - 1]
            out = r[5]
            o.append('call %d %s %s %s 5 %d' % (i, r[4], c, FN[r[3]], 300 if out == 'timeout' else 2000))
            o.append('result')
            if out == 'value':
                if r[6] not in cur:
                    raise trace.HarnessError('lifecycle: nobody is slot %d' % r[6])
                o.append('exp C14,C18%s call value %d' % (',C17' if c in restarted else '', cur[r[6]]))
            else:
                o.append('exp %s call %s' % ({'error': 'C14,C15', 'failed': 'C11', 'timeout': 'C10,C17', 'no': 'C11'}[out], out))
        elif op == 'kill':
            o = None
        if o is None:
            seq.append((0, ['sleep 2', 'kill %d' % i]))
            del cur[slot]
            for c, s in list(chan.items()):
                if s == slot:
                    restarted.add(c)
        else:
            if op == 'init' and r[3] == 'good' and r[4]:
                chan['AB CDEFG'.replace(' ', '')[r[2] - 1]] = slot
            if op == 'uninit':
                for c, s in list(chan.items()):
                    if s == slot:
                        del chan[c]
            seq.append((i, o))
    ops[0] = []
    for k, (i, o) in enumerate(seq):
        if k and seq[k - 1][0] != i:
            ops[i].append('wait s%d' % k)
        ops[i] += o
        if k + 1 < len(seq) and seq[k + 1][0] != i:
            ops[i].append('set s%d' % (k + 1))
    L = ['scenario ' + name, 'opt timely 1', 'opt horizon 60000', 'opt steps 6000'] + ['opt ' + x for x in opts]
    L += ['inst %d %d A 8 512' % (i, i) for i in insts]
    for i in insts + ([0] if ops[0] else []):
        L.append('actor a%d %d' % (i, i if i else 900))
        L += ops[i]
    return '\n'.join(L) + '\n'


def life_walks(tier, seed, budget=None):
    confs = [{'Slots': '1..2', 'Chans': '1..2', 'Fns': '1..1', 'Kills': 'TRUE'}]
    if tier != 'quick':
        confs.append({'Slots': '1..2', 'Chans': '1..2', 'Fns': '1..2', 'Kills': 'FALSE'})
    with cf.ThreadPoolExecutor(3) as ex:
        res = list(ex.map(lambda c: run('Lifecycle', c, invariants=['OneOwner', 'OrphansUnowned', 'Known'], timeout=3000), confs))
    texts, st, ne = [], [0, 0], 0
    for ci, (out, s) in enumerate(res):
        st[0] += s[0]
        st[1] += s[1]
        edges = [(a, r, b) for a, r, b in printed(out, 'E')]
        ne += len(edges)
        r = random.Random(seed)
        r.shuffle(edges)
        ns = len(eval(confs[ci]['Slots'].replace('..', ',').join(['range(', '+1)'])))
        nc = 2
        init = (tuple([0] * ns), tuple([()] * ns), tuple([tuple([0] * nc)] * ns), ())
        ws = cover(edges, init, limit=45)
        r.shuffle(ws)
        for k, w in enumerate(ws):
            texts.append(('life%d-%d' % (ci, k), life_scenario('life%d-%d' % (ci, k), w, ['naming %d' % (k % 8)] if k % 2 else [])))
    return texts, st, ne
