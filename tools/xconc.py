#!/usr/bin/env python3
"""Development aid: explore concurrent programs.  usage: xconc.py PROFILE.json|X.prog execs seed binary [seconds]"""
import sys, os, json, collections, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import efsw, conc, profiles
work = tempfile.mkdtemp(prefix='efswx', dir='/tmp')
src, execs, seed, binary = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
secs = int(sys.argv[5]) if len(sys.argv) > 5 else 100
if src.endswith('.json'):
    P = json.load(open(src))
    raw, info = efsw.generate(work, profiles.conc(**P), seed)
    progs = efsw.name_scenarios(raw, 'x')
else:
    progs = efsw.load_scn(src)
d = dict(progs)
efsw.log('programs', len(progs))
tr, st, logs = conc.execute(binary, progs, work + '/t', execs, seed, secs)
efsw.log(st, 'bad', len(logs))
an, vs = efsw.validate(tr, work + '/v', module='ConcTrace')
efsw.log(vs)
cnt = collections.Counter(c for s, l, c, de in an)
print(dict(cnt))
shutil.rmtree('/tmp/xc', ignore_errors=True); os.makedirs('/tmp/xc')
seen = collections.Counter()
for s, l, c, de in an:
    seen[c] += 1
    if seen[c] <= 3:
        n, sd = conc.split_name(s)
        with open('/tmp/xc/%s.%d.prog' % (c, seen[c]), 'w') as f:
            f.write('# seed %d\n# %s %s\n@%s\n%s\n' % (sd, c, json.dumps(de), n, '\n'.join(d[n])))
            f.write(''.join('# ' + x + '\n' for x in logs.get(s, '').splitlines()[:70]))
        with open('/tmp/xc/%s.%d.nd' % (c, seen[c]), 'w') as f:
            on = False
            for t in tr:
                for ln in open(t):
                    if '"e":"reset"' in ln: on = '"%s"' % s in ln
                    if on: f.write(ln)
        print(c, s, json.dumps(de)[:300])
shutil.rmtree(work)
