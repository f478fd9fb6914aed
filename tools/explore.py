#!/usr/bin/env python3
"""Development aid: generate / run / validate and summarise anomalies.
usage: explore.py PROFILE.json|SCENARIOS.scn [seed] [bin]"""
import sys, os, json, collections, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import efsw
work = tempfile.mkdtemp(prefix='efswx', dir='/tmp')
src, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1
binary = sys.argv[3] if len(sys.argv) > 3 else '/tmp/hw/efswh'
if src.endswith('.scn'):
    sc, cur = [], None
    for l in open(src):
        l = l.rstrip('\n')
        if l.startswith('@'):
            cur = (l[1:], []); sc.append(cur)
        elif l.strip() and not l.startswith('#'): cur[1].append(l)
else:
    raw, info = efsw.generate(work, json.load(open(src)), seed)
    efsw.log('generated', len(raw), info)
    sc = efsw.name_scenarios(raw, 'x')
d = dict(sc)
tr, logs, n = efsw.execute(binary, sc, work + '/t')
efsw.log('executed', n, 'crashlogs', len(logs))
an, st = efsw.validate(tr, work + '/v')
efsw.log('validated', st)
by = collections.defaultdict(list)
for s, l, c, de in an: by[s].append((l, c, de))
cnt = collections.Counter(c for s, l, c, de in an)
print('anomalies', dict(cnt), 'scenarios', len(by))
first = collections.defaultdict(list)
for s in by:
    by[s].sort(key=lambda x: x[0])
    first[by[s][0][1]].append(s)
print('first class', {k: len(v) for k, v in first.items()})
os.makedirs('/tmp/x', exist_ok=True)
for f in os.listdir('/tmp/x'): os.unlink('/tmp/x/' + f)
for k, v in first.items():
    v.sort(key=lambda s: len(d[s]))
    for s in v[:3]:
        with open('/tmp/x/%s.%s.scn' % (k, s), 'w') as f:
            f.write('@' + s + '\n' + '\n'.join(d[s]) + '\n')
            for a in by[s][:8]: f.write('# %s\n' % (a,))
            if s in logs: f.write(''.join('# ' + x + '\n' for x in logs[s].splitlines()[:60]))
shutil.rmtree(work)
