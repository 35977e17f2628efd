#!/usr/bin/env python3
"""check.py --prop Cxx [--tier quick|thorough]

Decides one property of /repo's current working tree:
  1. runs of the real code under the deterministic runtime, each validated event by event by TLC against Contract.tla
  2. the property's further parts (exhaustive TLC runs of the design specifications, replay of their behaviours
     into the real code), see parts.py
Exit 0: held on everything explored; 1: VIOLATION; anything else: the check itself failed.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import scen, trace, parts

REPO = os.environ.get('VERIF_REPO', '/repo')

# the families of scenarios that bear on a property
FAMS = {
    'C01': 'mix same dup tmo flood err respfull shut',
    'C02': 'same restart mix dup err',
    'C03': 'mix churn shut tmo full restart flood absent',
    'C04': 'mix full geo flood grow',
    'C05': 'full geo flood respfull',
    'C06': 'mix full tmo lock shut mal grow',
    'C07': 'lock tmo',
    'C08': 'lock flood grow mix nest mal',
    'C09': 'full flood respfull geo',
    'C10': 'tmo full lock kill nest',
    'C11': 'absent uninitialised owner',
    'C12': 'life initfail taken shut churn',
    'C13': 'shut uninitialised life churn',
    'C14': 'reg rebind regseq life',
    'C15': 'err respfull reg',
    'C16': 'mal dup',
    'C17': 'kill restart owner',
    'C18': 'owner churn taken restart kill',
    'C19': 'geo full respfull',
    'C20': 'nest mix',
    'C23': 'hol respfull full kill',
    'C22': 'conc mix churn same reg rebind shut nest err tmo respfull grow',
}
SIZES = {'quick': (1500, 350, 5), 'thorough': (24000, 6000, 10)}  # runs of its families, of the others, schedules each


class Findings:
    def __init__(self, prop):
        self.prop, self.viol, self.known = prop, [], []

    def add(self, what, replay):
        self.viol.append((what, replay))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


WITHVAL = ('C21', 'C15')


def build(tmp, prop=''):
    if os.path.exists(os.path.join(tmp, 'drv')):
        return os.path.join(tmp, 'drv')
    p = subprocess.run(['bash', os.path.join(ROOT, 'sim/build.sh'), tmp, REPO] + (['val'] if prop in WITHVAL else ['use'] if prop == 'C24' else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-3000:])
        raise trace.HarnessError('the driver does not build')
    return os.path.join(tmp, 'drv')


def plan_runs(prop, tier, seed):
    """[(family, scenario number)] and the number of schedules of each"""
    own, other, sched = SIZES[tier]
    fams = FAMS[prop].split()
    rest = [f for f in scen.FAMILIES if f not in fams]
    base = 1000000 * (seed % 2000) + (500000 if tier == 'thorough' else 0)
    todo = []
    # the first family is the property's own
    share = [3] + [2] + [1] * (len(fams) - 2) if len(fams) > 1 else [1]
    tot = sum(share)
    for f, w in zip(fams, share):
        n = max(4, own * w // tot // sched)
        todo += [(f, base + k) for k in range(n)]
    for f in rest:
        n = max(1, other // len(rest) // sched)
        todo += [(f, base + k) for k in range(n)]
    return todo, sched


def simulate(drv, todo, sched, seed, tmp, jobs=8):
    prims, files = {}, []
    groups = [todo[k::jobs * 2] for k in range(jobs * 2)]
    cmds = []
    for g, part in enumerate(groups):
        if not part:
            continue
        txt = []
        for f, k in part:
            t, p = scen.gen(f, k)
            prims['%s-%d' % (f, k)] = p
            txt.append(t)
        fn = os.path.join(tmp, 'g%d' % g)
        open(fn + '.scn', 'w').write('---\n'.join(txt))
        cmds.append((fn, [drv, fn + '.scn', str(1 + (seed % 1000) * 100), str(sched), fn + '.out']))
    pend, running = list(cmds), []
    while pend or running:
        while pend and len(running) < jobs:
            fn, c = pend.pop(0)
            running.append((fn, subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=open(fn + '.err', 'w'))))
        for x in running[:]:
            if x[1].poll() is not None:
                running.remove(x)
                if x[1].returncode:
                    raise trace.HarnessError('driver exit %d: %s' % (x[1].returncode, open(x[0] + '.err').read()[-500:]))
        time.sleep(0.02)
    runs = []
    for fn, c in cmds:
        runs += trace.parse(fn + '.out')
    return runs, prims


def sim_part(prop, tier, seed, tmp, F, cov):
    t0 = time.time()
    drv = build(tmp)
    t1 = time.time()
    todo, sched = plan_runs(prop, tier, seed)
    total = {'runs': 0, 'events': 0, 'states': 0, 'trans': 0, 'steps': 0, 'viol': 0}
    fams, feats, samples, bad = {}, {}, [], []
    chunk = 700
    for c in range(0, len(todo), chunk):
        runs, prims = simulate(drv, todo[c:c + chunk], sched, seed, tmp)
        tr = [trace.convert(r, prims[r.scn]) for r in runs]
        v, st = trace.validate(tr, tmp)
        total['runs'] += len(runs)
        total['events'] += sum(map(len, tr))
        total['steps'] += sum(r.steps for r in runs)
        total['trans'] += st[0] - len(tr)
        total['states'] += st[1]
        for r, t in zip(runs, tr):
            f = r.scn.split('-')[0]
            fams[f] = fams.get(f, 0) + 1
            for e in t:
                feats[e[0]] = feats.get(e[0], 0) + 1
        if not samples:
            samples = [{'scenario': runs[0].scn, 'schedule': runs[0].seed, 'first_events': tr[0][:12]}]
        for a, b, tags in v:
            if 'KF-C17-lock' in tags and prop == 'C17':
                F.known.append('lock')
            if prop in tags:
                total['viol'] += 1
                if len(bad) < 40:
                    bad.append((runs[a], prims[runs[a].scn], b, tr[a], tags))
    t2 = time.time()
    # a report counts if the same run shows it again
    seen = set()
    for r, prim, b, t, tags in bad:
        key = (r.scn.split('-')[0], t[b][0])
        if key in seen or len(seen) > 4:
            continue
        fam, k = r.scn.rsplit('-', 1)
        txt, p = scen.gen(fam, int(k))
        fn = os.path.join(tmp, 're')
        open(fn + '.scn', 'w').write(txt)
        again = False
        for _ in range(3):
            subprocess.run([drv, fn + '.scn', str(r.seed), '1', fn + '.out'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            rr = trace.parse(fn + '.out')
            t2r = [trace.convert(x, p) for x in rr]
            v, _st = trace.validate(t2r, tmp)
            if any(prop in tg for _a, _b, tg in v):
                again = True
                break
        if not again and total['viol'] < 3:
            log('not reproduced:', r.scn, r.seed, t[b])
            continue
        seen.add(key)
        name = save_replay(prop, r, txt, t, b, tags)
        F.add('%s schedule %d: event %s violates %s' % (r.scn, r.seed, json.dumps(t[b]), ','.join(sorted(tags))), name)
    cov['trace_validation'] = {
        'runs_of_real_code': total['runs'], 'events': total['events'], 'scheduling_steps': total['steps'], 'scenarios': len(todo),
        'schedules_per_scenario': sched, 'runs_by_family': fams, 'events_by_kind': feats,
        'seconds': {'build': round(t1 - t0, 1), 'runs_and_tlc': round(t2 - t1, 1)}}
    cov['states'] = cov.get('states', 0) + total['states']
    cov['transitions'] = cov.get('transitions', 0) + total['trans']
    cov['traces_validated_against_impl'] = cov.get('traces_validated_against_impl', 0) + total['runs']
    cov.setdefault('samples', []).extend(samples)
    return drv


def save_replay(prop, r, txt, t, b, tags):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    name = os.path.join(d, '%s-%s-%d.txt' % (prop, r.scn, r.seed))
    with open(name, 'w') as f:
        f.write('# property %s; reproduce: bash sim/build.sh DIR; put the scenario below in FILE; DIR/drv FILE %d 1 -\n' % (prop, r.seed))
        f.write('# event %d violates %s (spec/Contract.tla, Bad)\n' % (b, ','.join(sorted(tags))))
        f.write(txt)
        f.write('---- events\n')
        for i, e in enumerate(t):
            f.write('%d %s%s\n' % (i, json.dumps(e), '   <======' if i == b else ''))
    return name


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='', help='run only these parts (development)')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vchk')
    F = Findings(prop)
    cov = {}
    try:
        ctx = parts.Ctx(prop=prop, tier=tier, seed=seed, tmp=tmp, repo=REPO, root=ROOT, findings=F, cov=cov, log=log, drv=lambda: build(tmp, prop),
                        unit=lambda: build(tmp, prop) and os.path.join(tmp, 'unit'), val=lambda: build(tmp, prop) and os.path.join(tmp, 'val'),
                        use=lambda: build(tmp, prop) and os.path.join(tmp, 'use'))
        for name, fn in parts.of(prop):
            if not a.only or name in a.only.split(','):
                fn(ctx)
        if prop in FAMS and (not a.only or 'sim' in a.only.split(',')):
            sim_part(prop, tier, seed, tmp, F, cov)
    except trace.HarnessError as e:
        print('CHECK ERROR: %s' % e)
        return 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': parts.ASSUMPTIONS, 'wall_s': round(wall, 1), 'violations': len(F.viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for w in parts.known_lines(prop, F.known, os.path.join(ROOT, 'known-findings.txt')):
        print(w)
    if F.viol:
        for what, replay in F.viol[:5]:
            print(what)
        print('VIOLATION property=%s replay=%s' % (prop, F.viol[0][1]))
        return 1
    print('%s held: %s' % (prop, json.dumps({k: v for k, v in cov.items() if isinstance(v, int)})))
    return 0


if __name__ == '__main__':
    sys.exit(main())
