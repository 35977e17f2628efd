"""show.py DRV FAMILY K SEED: one run, with violations marked (development aid)"""
import sys, os, subprocess, tempfile, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import scen, trace
drv, fam, k, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
t, p = scen.gen(fam, k)
tmp = tempfile.mkdtemp(prefix='show')
open(tmp + '/s', 'w').write(t)
subprocess.check_call([drv, tmp + '/s', seed, '1', tmp + '/o'])
r = trace.parse(tmp + '/o')[0]
tr = trace.convert(r, p)
v, st = trace.validate([tr], tmp)
m = {}
for a, b, x in v:
    m.setdefault(b, set()).update(x)
print(t)
for i, e in enumerate(tr):
    print(i, json.dumps(e), '   <=======' + str(m[i]) if i in m else '')
subprocess.run(['rm', '-rf', tmp])
