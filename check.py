#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Generates scenarios from the TLA+ specifications with TLC, runs them against the library
built from /repo's working tree and validates the recorded traces against the contract
specification with TLC.  Exit 0: held; 1: violated; anything else: the check failed."""
import argparse, collections, hashlib, json, os, shutil, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import conc, efsw
from profiles import CHECKS, ALWAYS

REPLAYS = os.path.join(HERE, 'build', 'replays')


def known_findings(pid):
    """Lines `finding: property=<id> class=<anomaly class> match=<text> :: <description>`."""
    out = []
    fn = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(fn):
        for ln in open(fn):
            if ln.startswith('finding: property=%s ' % pid):
                head, _, desc = ln.partition(' :: ')
                kv = dict(x.split('=', 1) for x in head.split()[1:])
                out.append((kv, desc.strip()))
    return out


def run_set(binary, scs, work, chk, budget):
    tr, logs, n = efsw.execute(binary, scs, os.path.join(work, 't'), env=chk.get('env'), tmo=chk.get('tmo', 30),
                               budget=budget)
    an, st = efsw.validate(tr, os.path.join(work, 'v'))
    return tr, an, st, logs, n


def relevant(an, classes):
    by = collections.OrderedDict()
    for s, l, c, d in an:
        if c == 'model':
            raise efsw.CheckError('harness and model disagree in %s: %s' % (s, d))
        if c in classes or c in ALWAYS:
            by.setdefault(s, []).append((l, c, d))
    return by


def summarize(scs, tr):
    """Counts on the recorded traces: callbacks delivered, operations, idle points."""
    cnt = collections.Counter()
    for t in tr:
        for ln in open(t, errors='replace'):
            i = ln.find('"e":"')
            cnt[ln[i + 5:ln.find('"', i + 5)]] += 1
    return dict(cnt)


def sequential(pid, chk, a, work, limit, t0):
    """The single-stepped part of a check: returns (confirmed, coverage)."""
    bdir = os.path.join(work, 'bin')
    efsw.build(bdir)
    binary = os.path.join(bdir, 'efswh')
    states = trans = 0
    models = []
    if a.replay:
        scs = efsw.load_scn(a.replay)
    else:
        scs, models, states, trans = efsw.gather(chk, a.tier, a.seed, work)
    classes = chk['classes']
    tr, an, st, logs, n = run_set(binary, scs, os.path.join(work, 'r'), chk, limit * 0.5)
    efsw.log('executed %d of %d scenarios, %d trace lines' % (n, len(scs), st['lines']))
    counts = summarize(scs, tr)
    d = dict(scs)
    other = collections.Counter(c for s, l, c, _ in an if c not in classes and c not in ALWAYS)
    bad = relevant(an, classes)
    known = known_findings(pid)
    confirmed, shown, unrep = [], set(), []
    for s in sorted(bad, key=lambda x: len(d[x])):
        if len(confirmed) >= 3 or len(unrep) >= 12 or time.time() - t0 > limit * 0.8:
            break
        ok = None
        for attempt in range(4):
            one = [('%s#%d' % (s, j), d[s]) for j in range(8)]
            tr1, an1, st1, lg1, n1 = run_set(binary, one, os.path.join(work, 'c%d' % attempt), chk, 120)
            b1 = relevant(an1, classes)
            if b1:
                k1 = next(iter(b1))
                ok = b1[k1]
                logs[s] = lg1.get(k1, logs.get(s, ''))
                break
        if ok is None:
            unrep.append(s)
            efsw.log('not reproduced alone:', s, bad[s][:3])
            continue
        hit = [(kv, ds) for kv, ds in known
               if all(c == kv.get('class') and kv.get('match', '') in json.dumps(de) for _, c, de in ok)]
        if hit:
            shown.add(hit[0][1])
            continue
        confirmed.append((s, ok))
    if unrep and not confirmed and time.time() - t0 < limit * 0.8:
        # depends on what ran before: the whole set again
        tr2, an2, st2, lg2, n2 = run_set(binary, scs, os.path.join(work, 'again'), chk, limit * 0.3)
        for s, b in relevant(an2, classes).items():
            if s in unrep:
                confirmed.append((s, b))
                break
    for ds in sorted(shown):
        print('KNOWN-FINDING: property=%s %s' % (pid, ds))
    for s, b in confirmed[:3]:
        fn = os.path.join(REPLAYS, '%s-%s.scn' % (pid, hashlib.sha1('\n'.join(d[s]).encode()).hexdigest()[:10]))
        with open(fn, 'w') as f:
            f.write('# replay: python3 %s/check.py %s --replay %s\n' % (HERE, pid, fn))
            for l, c, de in b[:20]:
                f.write('# %s %s\n' % (c, json.dumps(de)))
            for x in logs.get(s, '').splitlines()[:80]:
                f.write('# ' + x + '\n')
            f.write('@' + s + '\n' + '\n'.join(d[s]) + '\n')
        for l, c, de in b[:4]:
            print('  %s: %s %s' % (s, c, json.dumps(de)))
        print('VIOLATION property=%s replay=%s' % (pid, fn))
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=st['scenarios'],
               trace_lines=st['lines'], recorded=counts, models=models,
               anomalies_of_other_properties=dict(other), not_reproduced=len(unrep),
               classes=sorted(classes | ALWAYS),
               samples=[{'name': x, 'steps': y} for x, y in scs[:2]] + [{'name': scs[-1][0], 'steps': scs[-1][1]}])
    if st['unjudged'] and not confirmed:
        raise efsw.CheckError('the specification could not judge %s' % st['unjudged'][0][0])
    if n < len(scs) and not confirmed:
        raise efsw.CheckError('only %d of %d scenarios ran in time' % (n, len(scs)))
    efsw.log('%s: %d scenarios, %d violations, %.0f s' % (pid, len(scs), len(confirmed), time.time() - t0))
    return len(confirmed), cov


def concurrent(pid, chk, a, work, limit, t0):
    """The concurrent part of a check: returns (confirmed, coverage)."""
    bdir = os.path.join(work, 'cbin')
    efsw.build(bdir, 'buildconc.sh')
    binary = os.path.join(bdir, 'concw')
    classes = chk['cclasses']
    deep = a.tier != 'quick'
    models, states, trans = [], 0, 0
    secs, execs = (900, 4000) if deep else (chk.get('csecs', 110), chk.get('cexecs', 60))
    if a.replay:
        progs, secs, execs = efsw.load_scn(a.replay), 60, 3000
    else:
        progs = []
        profs = chk['conc'](4 if deep else 1)
        for j, p in enumerate(profs):
            raw, info = efsw.generate(os.path.join(work, 'cg%d' % j), p, a.seed * 1000 + 500 + j)
            sc = efsw.name_scenarios(raw, 'q%d' % j)
            models.append(dict(module='ConcEnv', constants=p['consts'], scenarios=len(sc), **info))
            states += info['states']
            trans += info['transitions']
            progs += sc
        progs += efsw.load_scn(os.path.join(HERE, 'corpus', 'conc.prog'))
    d = dict(progs)
    tr, st, logs = conc.execute(binary, progs, os.path.join(work, 'ct'), execs, a.seed, secs)
    efsw.log('concurrent: %d programs, %d executions, %d distinct' % (len(progs), st['executions'], st['distinct']))
    an, vs = efsw.validate(tr, os.path.join(work, 'cv'), module='ConcTrace', timeout=1500)
    counts = summarize(progs, tr)
    other = collections.Counter(c for s, l, c, _ in an if c not in classes and c not in ALWAYS)
    bad = relevant(an, classes)
    known = known_findings(pid)
    confirmed, unrep, shown = [], [], set()
    for s in sorted(bad, key=lambda x: len(d[conc.split_name(x)[0]])):
        if len(confirmed) >= 2 or len(unrep) >= 10:
            break
        n, sd = conc.split_name(s)
        one = [(n, d[n])]
        for attempt in range(3):
            w = os.path.join(work, 'cc%d_%d' % (len(unrep), attempt))
            tr1, _, lg1 = conc.execute(binary, one, w, 1 if attempt < 2 else 800, sd if attempt < 2 else a.seed, 60, workers=1)
            an1, _ = efsw.validate(tr1, w + 'v', module='ConcTrace')
            b1 = relevant(an1, classes)
            if b1:
                k = next(iter(b1))
                hit = [ds for kv, ds in known if all(c == kv.get('class') and kv.get('match', '') in json.dumps(de) for _, c, de in b1[k])]
                if hit:
                    shown.add(hit[0])
                else:
                    confirmed.append((n, d[n], conc.split_name(k)[1], b1[k], lg1.get(k, logs.get(s, ''))))
                break
        else:
            unrep.append(s)
            efsw.log('not reproduced alone:', s, bad[s][:3])
    for ds in sorted(shown):
        print('KNOWN-FINDING: property=%s %s' % (pid, ds))
    for n, lines, sd, b, lg in confirmed:
        fn = os.path.join(REPLAYS, '%s-%s.prog' % (pid, hashlib.sha1(('\n'.join(lines) + str(sd)).encode()).hexdigest()[:10]))
        with open(fn, 'w') as f:
            f.write('# replay: python3 %s/check.py %s --replay %s   (schedule %d: concw FILE TRACE SCRATCH 1 %d)\n' % (HERE, pid, fn, sd, sd))
            for l, c, de in b[:20]:
                f.write('# %s %s\n' % (c, json.dumps(de)))
            for x in lg.splitlines()[:80]:
                f.write('# ' + x + '\n')
            f.write('@' + n + '\n' + '\n'.join(lines) + '\n')
        for l, c, de in b[:4]:
            print('  %s!%d: %s %s' % (n, sd, c, json.dumps(de)))
        print('VIOLATION property=%s replay=%s' % (pid, fn))
    if vs['unjudged'] and not confirmed:
        raise efsw.CheckError('the specification could not judge %s' % vs['unjudged'][0][0])
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=vs['scenarios'], trace_lines=vs['lines'],
               executions=st['executions'], distinct_executions=st['distinct'], basic_blocks=st['blocks'], recorded=counts, models=models,
               anomalies_of_other_properties=dict(other), not_reproduced=len(unrep), classes=sorted(classes | ALWAYS),
               samples=[{'name': x, 'steps': y} for x, y in progs[:2]])
    return len(confirmed), cov


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    a = ap.parse_args()
    pid, chk = a.prop, CHECKS[a.prop]
    t0 = time.time()
    limit = 600 if a.tier == 'quick' else 3000
    work = tempfile.mkdtemp(prefix='efswc', dir='/tmp')
    os.makedirs(REPLAYS, exist_ok=True)
    try:
        parts = []
        isconc = a.replay and a.replay.endswith('.prog')
        if 'profiles' in chk and not isconc:
            parts.append(sequential(pid, chk, a, work, limit, t0))
        if 'conc' in chk and (isconc or not a.replay):
            parts.append(concurrent(pid, chk, a, work, limit, t0))
        if not a.replay:
            cov = dict(parts[0][1])
            if len(parts) > 1:
                for k in ('states', 'transitions', 'traces_validated_against_impl', 'trace_lines'):
                    cov[k] += parts[1][1][k]
                cov['concurrent'] = parts[1][1]
            ev = dict(property=pid, tier=a.tier, seed=a.seed, level='model_checking', coverage=cov,
                      wall_s=round(time.time() - t0, 1))
            os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
            with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        return 1 if any(n for n, _ in parts) else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        rc = main()
    except efsw.CheckError as e:
        print('CHECK-ERROR:', e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
