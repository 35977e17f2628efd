"""The parts of a check beyond trace validation."""
import os, subprocess
import concurrent.futures as cf
import trace, walks

ASSUMPTIONS = [
    'x86-64 Linux, g++; the library is compiled unmodified from /repo with NDEBUG',
    'threads of the code under test run one at a time (sequential consistency); preemption at synchronisation operations and, in part of the runs, at memory accesses',
    'the runtime in sim/rt.cpp stands for the kernel: semaphores, shared memory, clocks, mutexes, condition variables, futexes, process kills',
]


class Ctx:
    def __init__(self, **k):
        self.__dict__.update(k)


def put(cov, key, what, st=None, replayed=0):
    cov[key] = what
    if st:
        cov['states'] = cov.get('states', 0) + st[1]
        cov['transitions'] = cov.get('transitions', 0) + st[0]
    if replayed:
        cov['behaviours_replayed_into_impl'] = cov.get('behaviours_replayed_into_impl', 0) + replayed


def save(ctx, name, lines, what):
    d = os.path.join(ctx.root, 'replays')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s-%s.txt' % (ctx.prop, name))
    with open(f, 'w') as o:
        o.write('# property %s: %s\n# reproduce: bash sim/build.sh DIR /repo val; DIR/%s THISFILE -\n' % (ctx.prop, what, 'val' if ctx.prop in ('C15', 'C21') else 'unit'))
        o.write('#case %s\n%s\n' % (name, '\n'.join(lines)))
    return f


def report(ctx, cases, bad):
    d = dict(cases)
    for name, what in sorted(bad, key=lambda b: len(d[b[0]]))[:3]:
        ctx.findings.add('%s: %s' % (name, what), save(ctx, name, d[name], what))


def queue_part(ctx):
    """the transition graph of MsgQueue.tla, replayed edge by edge into the real queue"""
    cases, st, cov = walks.queue_cases(ctx.tier, ctx.seed)
    bad = walks.replay(ctx.unit(), cases, ctx.tmp)
    content = ('byte ', 'popFront wrote', 'a message that', 'ended by signal', 'popFront(', 'does not end', 'create(', 'open by', 'open of', 'the queue lock')
    admission = ('pushBack', 'checkSpace', 'popFront(', 'msgNumber', 'a message that', 'ended by signal', 'does not end')
    if ctx.prop == 'C04':
        bad = [b for b in bad if b[1].split(': ', 1)[-1].startswith(content)]
    elif ctx.prop == 'C05':
        bad = [b for b in bad if b[1].split(': ', 1)[-1].startswith(admission)]
    elif bad:
        # the geometry of a handle matters only if the walk succeeds through the creator's
        d = dict(cases)
        single = []
        for name, what in bad:
            h = d[name][0].split()
            if h[3] != '1':
                single.append((name, [' '.join(h[:3] + ['1', '0'])] + d[name][1:]))
        alone = {n for n, _ in walks.replay(ctx.unit(), single, ctx.tmp)}
        bad = [b for b in bad if dict(single).get(b[0]) and b[0] not in alone]
    put(ctx.cov, 'queue_replay', dict(cov, cases=len(cases)), st, len(cases))
    report(ctx, cases, bad)


def sem_part(ctx):
    """the behaviours of TimedSem.tla, replayed into the real semaphore"""
    cases, st, cov = walks.sem_cases(ctx.tier, ctx.seed)
    bad = walks.replay(ctx.unit(), cases, ctx.tmp)
    put(ctx.cov, 'timed_wait_replay', cov, st, len(cases))
    report(ctx, cases, bad)


def value_part(ctx):
    """the journeys of Value.tla, made with real calls"""
    cases, st, cov = walks.value_cases(ctx.tier, ctx.seed)
    bad = walks.replay(ctx.val(), cases, ctx.tmp)
    mismatch = ('an argument that does not', 'error without', 'not delivered', 'no result', 'ended by signal', 'does not end')
    value = ('arrived', 'came back', 'refused', 'result', 'not executed', 'no result', 'not delivered', 'ended by signal', 'does not end', 'bind', 'init')
    bad = [b for b in bad if b[1].split(': ', 1)[-1].startswith(mismatch if ctx.prop == 'C15' else value)]
    put(ctx.cov, 'value_replay', cov, st, cov['calls'])
    report(ctx, cases, bad)


def usage_part(ctx):
    """walks of Usage.tla, repeated in one process; what is in use after every step, judged by TLC"""
    cases, st, cov = walks.usage_cases(ctx.tier, ctx.seed)
    bad, tot = walks.usage_replay(ctx.use(), cases, ctx.tmp)
    levels = [b for b in bad if 'in use after it' in b[1]]
    # a level that rises because of the schedule must do so again
    d = {c[0]: c for c in cases}
    sure = []
    for name, what in levels[:12]:
        n, reps, sd, lines, once = d[name]
        again, _ = walks.usage_replay(ctx.use(), [(n, reps + 5, sd + 77, lines, once)], ctx.tmp)
        if any('in use after it' in w for _n, w in again):
            sure.append((name, what))
    put(ctx.cov, 'usage_replay', dict(cov, not_completed=len(bad) - len(levels)), [st[0] + tot[0], st[1] + tot[1]], len(cases))
    for name, what in sorted(sure, key=lambda b: len(d[b[0]][3]))[:3]:
        n, reps, sd, lines, once = d[name]
        os.makedirs(os.path.join(ctx.root, 'replays'), exist_ok=True)
        f = os.path.join(ctx.root, 'replays', '%s-%s.txt' % (ctx.prop, name))
        with open(f, 'w') as o:
            o.write('# property %s: %s\n# reproduce: bash sim/build.sh DIR /repo use; DIR/use THISFILE -\n#case %s %d %d %d\n%s\n' % (ctx.prop, what, n, reps, sd, once, '\n'.join(lines)))
        ctx.findings.add('%s: after "%s", %s' % (name, lines[int(what.split()[1][:-1]) - 1], what), f)


def run_texts(ctx, texts, sched, first=1):
    """scenario texts through the driver: [(name, text, Run)]"""
    drv = ctx.drv()
    def one(k):
        part = texts[k::16]
        if not part:
            return []
        fn = os.path.join(ctx.tmp, 'w%d' % k)
        open(fn + '.scn', 'w').write('---\n'.join(t for _n, t in part))
        p = subprocess.run([drv, fn + '.scn', str(first), str(sched), fn + '.out'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise trace.HarnessError('driver exit %d: %s' % (p.returncode, p.stderr[-500:]))
        return trace.parse(fn + '.out')
    with cf.ThreadPoolExecutor(8) as ex:
        res = [r for g in ex.map(one, range(16)) for r in g]
    d = dict(texts)
    return [(r.scn, d[r.scn], r) for r in res]


def life_part(ctx):
    """the transition graph of Lifecycle.tla, covered by walks, replayed through the public API"""
    texts, st, ne = walks.life_walks(ctx.tier, ctx.seed)
    sched = 1 if ctx.tier == 'quick' else 6
    runs = run_texts(ctx, texts, sched, 1 + (ctx.seed % 1000) * 100)
    prim = ['C11', 'C12', 'C14', 'C15', 'C17', 'C18']
    bad, exps, events, vst = [], 0, 0, [0, 0]
    for c in range(0, len(runs), 2000):
        chunk = runs[c:c + 2000]
        tr = [trace.convert(r, prim) for _n, _t, r in chunk]
        v, s = trace.validate(tr, ctx.tmp)
        vst = [vst[0] + s[0], vst[1] + s[1]]
        exps += sum(1 for t in tr for e in t if e[0] == 'exp')
        events += sum(map(len, tr))
        bad += [(chunk[a], b, tr[a], tags) for a, b, tags in v if ctx.prop in tags]
    put(ctx.cov, 'lifecycle_replay', {'edges_of_the_specification': ne, 'walks': len(texts), 'runs': len(runs), 'answers_compared': exps,
                                      'events_validated': events}, [st[0] + vst[0], st[1] + vst[1]], len(runs))
    for (name, text, r), b, t, tags in sorted(bad, key=lambda x: x[1])[:3]:
        d = os.path.join(ctx.root, 'replays')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '%s-%s-%d.txt' % (ctx.prop, name, r.seed))
        with open(f, 'w') as o:
            o.write('# property %s; reproduce: bash sim/build.sh DIR; put the scenario below in FILE; DIR/drv FILE %d 1 -\n' % (ctx.prop, r.seed))
            o.write(text)
            o.write('---- events\n')
            for i, e in enumerate(t):
                o.write('%d %s%s\n' % (i, e, '   <======' if i == b else ''))
        ctx.findings.add('%s schedule %d: %s violates %s' % (name, r.seed, t[b], ','.join(sorted(tags))), f)


def many_part(ctx):
    """calls that stay outstanding while very many others are made (wrap-around of identifiers)"""
    import scen
    n = 70000 if ctx.tier == 'quick' else 1100000
    text, prim = scen.many(n)
    runs = run_texts(ctx, [('many-%d' % n, text)], 1, 1 + ctx.seed % 1000)
    tr = [trace.convert(r, prim) for _n, _t, r in runs]
    v, st = trace.validate(tr, ctx.tmp)
    put(ctx.cov, 'many_calls', {'calls': n, 'events_validated': sum(map(len, tr))}, st, 1)
    for a, b, tags in v:
        if ctx.prop in tags:
            os.makedirs(os.path.join(ctx.root, 'replays'), exist_ok=True)
            f = os.path.join(ctx.root, 'replays', '%s-many.txt' % ctx.prop)
            with open(f, 'w') as o:
                o.write('# property %s; reproduce: bash sim/build.sh DIR; put the scenario below in FILE; DIR/drv FILE %d 1 -\n' % (ctx.prop, runs[a][2].seed))
                o.write(text)
                for i, e in enumerate(tr[a]):
                    o.write('%d %s%s\n' % (i, e, '   <======' if i == b else ''))
            ctx.findings.add('many-%d: %s violates %s' % (n, tr[a][b], ','.join(sorted(tags))), f)


def design_part(ctx):
    """exhaustive exploration of the design (Veigar.tla composed with Contract.tla)"""
    import time, design
    quick, more = design.USE[ctx.prop]
    done, st, skipped = {}, [0, 0], []
    end = time.time() + (240 if ctx.tier == 'quick' else 3000)
    for name in quick + (more if ctx.tier == 'thorough' else []):
        try:
            r = design.explore(name, timeout=max(5, min(900, end - time.time())))
        except subprocess.TimeoutExpired:
            skipped.append(name)
            continue
        done[name] = {'transitions': r[0], 'states': r[1]}
        st = [st[0] + r[0], st[1] + r[1]]
    cov = {'configurations': done, 'not_completed': skipped, 'invariants': design.INVARIANTS}
    if ctx.tier == 'thorough':
        # the model refutes the mistakes it is meant to exclude
        refuted = []
        for bug, (config, props) in sorted(design.BUGS.items()):
            if ctx.prop in props.split():
                if design.explore(config, bug) is not None:
                    raise trace.HarnessError('the design model accepts the mistake %s (%s)' % (bug, config))
                refuted.append(bug)
        cov['mistakes_refuted'] = refuted
    put(ctx.cov, 'design', cov, st)


PARTS = {
    'C02': [('many', many_part)],
    'C04': [('queue', queue_part)],
    'C05': [('queue', queue_part)],
    'C19': [('queue', queue_part)],
    'C07': [('sem', sem_part)],
    'C15': [('value', value_part)],
    'C21': [('value', value_part)],
    'C24': [('usage', usage_part)],
    'C11': [('life', life_part)],
    'C12': [('life', life_part)],
    'C14': [('life', life_part)],
    'C17': [('life', life_part)],
    'C18': [('life', life_part)],
}
_W = ' Lifecycle.tla: its transition graph is covered by walks that are replayed through the public API (the answers of the specification are compared by TLC).'
_D = ' The design model (Veigar.tla composed with Contract.tla) is explored exhaustively for the configurations named in tools/design.py.'
_Q = ' MsgQueue.tla (ring layout against an abstract queue): every transition of small geometries and random behaviours of large ones are replayed into the real MessageQueue.'
_V = ' Value.tla: every journey of a value between the type families it lists is made with a real call.'
NOTES = {
    'C01': ('; exhaustive design model', _D),
    'C02': ('; exhaustive design model; one run with very many calls', _D),
    'C03': ('; exhaustive design model', _D),
    'C04': ('; behaviours of MsgQueue.tla replayed into the queue', _Q),
    'C05': ('; behaviours of MsgQueue.tla replayed into the queue', _Q),
    'C07': ('; behaviours of TimedSem.tla replayed into the semaphore', ' TimedSem.tla: all its behaviours up to a length (start times near second boundaries, signals, interruptions) are replayed into the real semaphore.'),
    'C08': ('; exhaustive design model', _D),
    'C09': ('; exhaustive design model', _D),
    'C10': ('; exhaustive design model', _D),
    'C11': ('; walks of Lifecycle.tla replayed; exhaustive design model', _W + _D),
    'C12': ('; walks of Lifecycle.tla replayed', _W),
    'C13': ('; exhaustive design model', _D),
    'C14': ('; walks of Lifecycle.tla replayed', _W),
    'C15': ('; journeys of Value.tla replayed', _V),
    'C17': ('; walks of Lifecycle.tla replayed; exhaustive design model', _W + _D),
    'C18': ('; walks of Lifecycle.tla replayed; exhaustive design model', _W + _D),
    'C19': ('; behaviours of MsgQueue.tla replayed into the queue', _Q),
    'C20': ('; exhaustive design model', _D),
    'C21': ('; journeys of Value.tla replayed', _V),
    'C23': ('; exhaustive design model', _D),
    'C24': ('; walks of Usage.tla replayed, levels of use judged by TLC', ' Usage.tla: walks are repeated in one process; what is in use after every step (memory, descriptors, semaphores, mappings, threads) is judged by TLC.'),
}


def of(prop):
    import design
    return PARTS.get(prop, []) + ([('design', design_part)] if prop in design.USE else [])


def known_lines(prop, known, path):
    """KNOWN-FINDING lines for the listed findings that concern the property"""
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                out.append(line.rstrip('\n'))
    return out
