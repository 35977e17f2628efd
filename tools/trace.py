"""Recorded runs -> JSON batches -> TLC (VeigarTrace) -> violations."""
import json, os, subprocess, sys, re, tempfile, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Run:
    __slots__ = ('scn', 'seed', 'steps', 'ev', 'raw')

    def __init__(self, scn, seed, steps):
        self.scn, self.seed, self.steps, self.ev, self.raw = scn, seed, steps, [], []


def parse(path):
    runs = []
    cur = None
    for line in open(path, errors='replace'):
        line = line.rstrip('\n')
        if line.startswith('#run '):
            p = line.split()
            cur = Run(p[1], int(p[2]), int(p[3]))
            runs.append(cur)
        elif cur is not None and line:
            cur.raw.append(line)
    return runs


class HarnessError(Exception):
    pass


def convert(run, prim):
    """the events as VeigarTrace wants them"""
    ch = {}
    out = [["prim", 0, sorted(prim)]]
    last = 0
    for line in run.raw:
        try:
            e = json.loads(line)
        except ValueError:
            raise HarnessError('unreadable event %r in %s/%d' % (line[:200], run.scn, run.seed))
        n = e[0]
        if n == 'overflow':  # a flood of events that no scenario accounts for
            del out[6000:]
            e = ['livelock', out[-1][1]]
            n = 'livelock'
        if n == 'stopped':
            raise HarnessError('%s in %s/%d' % (n, run.scn, run.seed))
        if n == 'ch':
            ch[e[3]] = e[2]
        if n in ('nm',):
            continue
        if n == 'mk':
            x = e[4]
            if x.startswith('sem.'):
                x = x[4:]
            cls, c, w = 0, 0, 0
            for suf, k in (('_shm', 1), ('_rwlock', 2), ('_readsmp', 3)):
                if x.endswith(suf):
                    for q, ww in (('_call', 0), ('_resp', 1)):
                        if x[:-len(suf)].endswith(q):
                            cls, w = k, ww
                            c = ch.get(x[:-len(suf) - len(q)], 0)
            e = ["mk", e[1], e[2], e[3], cls, c, w, e[5], e[6]]
        elif n == 'nm2':
            x = e[2]
            if x.startswith('sem.'):
                x = x[4:]
            c = 0
            for name, k in ch.items():
                if name and x.startswith(name + '_'):
                    c = max(c, k)
            e = ["nm2", e[1], c]
        elif n in ('crash', 'spin'):
            e[1] = last
        elif n == 'iss':
            e[7] = min(e[7], 2000000)
        for k, v in enumerate(e):
            if isinstance(v, int) and abs(v) > 2000000000:
                e[k] = 2000000000 if v > 0 else -2000000000
        if isinstance(e[1], int) and e[1] > last:
            last = e[1]
        out.append(e)
    return out


VIOL = re.compile(r'<<"VIOL", (\d+), (\d+), \{([^}]*)\}>>')
DONE = re.compile(r'<<"DONE", (\d+), (\d+)>>')


def tlc(module, cfg, env=None, workers=1, heap='2g', extra=(), timeout=3600, cwd=SPEC):
    meta = tempfile.mkdtemp(prefix='tlcm')
    cmd = ['java', '-Xmx' + heap, '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC', '-Xss64m', '-XX:TieredStopAtLevel=4', '-DTLA-Library=' + SPEC,
           '-Djava.io.tmpdir=' + meta,
           '-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *extra, module]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    finally:
        subprocess.run(['rm', '-rf', meta])


def validate_batch(traces, tmp, tag):
    """[[event]] -> list of (trace index, event index, tags)"""
    f = os.path.join(tmp, 'tr_%s.json' % tag)
    json.dump(traces, open(f, 'w'), separators=(',', ':'))
    rc, out = tlc('VeigarTrace.tla', 'VeigarTrace.cfg', {'TRACES': f}, heap='3g')
    viol = [(int(a) - 1, int(b) - 1, set(re.findall(r'"([^"]+)"', c))) for a, b, c in VIOL.findall(out)]
    done = {int(a) - 1 for a, b in DONE.findall(out)}
    if rc != 0 or len(done) != len(traces):
        k = out.find('Error:')
        raise HarnessError('TLC did not accept the traces (rc %d, %d of %d): %s' % (rc, len(done), len(traces), out[k if k >= 0 else -3000:][:3000]))
    m = re.search(r'(\d+) states generated, (\d+) distinct', out)
    os.unlink(f)
    return viol, (int(m.group(1)) if m else 0, int(m.group(2)) if m else 0)


def validate(traces, tmp, jobs=8):
    n = len(traces)
    total = sum(len(t) for t in traces)
    if n == 0:
        return [], (0, 0)
    jobs = max(1, min(jobs, total // 2000 + 1))
    order = sorted(range(n), key=lambda i: -len(traces[i]))
    groups = [[] for _ in range(jobs)]
    for k, i in enumerate(order):
        groups[k % jobs].append(i)
    groups = [g for g in groups if g]
    viol, gen, dist = [], 0, 0
    with cf.ThreadPoolExecutor(len(groups)) as ex:
        res = list(ex.map(lambda kg: (kg[1], validate_batch([traces[i] for i in kg[1]], tmp, str(kg[0]))), enumerate(groups)))
    for g, (v, st) in res:
        viol += [(g[a], b, t) for a, b, t in v]
        gen += st[0]
        dist += st[1]
    viol.sort(key=lambda x: (x[0], x[1]))
    return viol, (gen, dist)


if __name__ == '__main__':
    prim = sys.argv[2].split(',') if len(sys.argv) > 2 else ['C01']
    rs = parse(sys.argv[1])
    tr = [convert(r, prim) for r in rs]
    tmp = tempfile.mkdtemp(prefix='vt')
    import time
    t0 = time.time()
    v, st = validate(tr, tmp)
    print(len(rs), 'runs', sum(map(len, tr)), 'events', 'tlc %.1fs' % (time.time() - t0), st)
    seen = {}
    for a, b, t in v:
        seen.setdefault((rs[a].scn, tuple(sorted(t)), tr[a][b][0]), []).append((rs[a].seed, b, tr[a][b]))
    for k, l in seen.items():
        print(k, len(l), l[:2])
    subprocess.run(['rm', '-rf', tmp])
