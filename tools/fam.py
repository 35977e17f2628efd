"""fam.py DRV FAMILY FIRST N SCHEDULES: run scenarios of a family and validate them (development aid)"""
import sys, os, subprocess, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import scen, trace
drv, fam, first, n, sched = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
fams = list(scen.FAMILIES) if fam == 'all' else fam.split(',')
tmp = tempfile.mkdtemp(prefix='fam')
t0 = time.time()
jobs = []
prims = {}
for f in fams:
    for w in range(8):
        txt = []
        for k in range(first + w, first + n, 8):
            t, p = scen.gen(f, k)
            prims['%s-%d' % (f, k)] = p
            txt.append(t)
        if not txt:
            continue
        fn = '%s/%s_%d' % (tmp, f, w)
        open(fn + '.scn', 'w').write('---\n'.join(txt))
        jobs.append((fn, subprocess.Popen([drv, fn + '.scn', '1', str(sched), fn + '.out'])))
    for fn, p in jobs:
        p.wait()
        if p.returncode:
            print('drv exit', p.returncode, fn)
            sys.exit(2)
t1 = time.time()
runs = []
for fn, p in jobs:
    runs += trace.parse(fn + '.out')
tr = [trace.convert(r, prims[r.scn]) for r in runs]
v, st = trace.validate(tr, tmp)
print(len(runs), 'runs', sum(map(len, tr)), 'events; sim %.1fs tlc %.1fs' % (t1 - t0, time.time() - t1))
seen = {}
for a, b, t in v:
    seen.setdefault((runs[a].scn.split('-')[0], tuple(sorted(t)), tr[a][b][0]), []).append((runs[a].scn, runs[a].seed, b, tr[a][b]))
for k, l in sorted(seen.items(), key=lambda x: -len(x[1])):
    print(k, len(l))
    for x in l[:3]:
        print('     ', x)
subprocess.run(['rm', '-rf', tmp])
