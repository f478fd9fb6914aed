"""Concurrent programs: generated from ConcEnv.tla, run under the controlled scheduler,
their executions validated against ConcTrace.tla."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import efsw

def execute(binary, progs, work, execs, seed, seconds, workers=8):
    """Runs every program under `execs` schedules (or until the time is up)."""
    os.makedirs(work, exist_ok=True)
    base = efsw.scratch_base()
    workers = min(workers, len(progs))
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=77:quarantine_size_mb=4:allocator_release_to_os_interval_ms=-1:verify_asan_link_order=0'

    def one(j):
        pf, tr = os.path.join(work, 'p%d' % j), os.path.join(work, 'trace%d.nd' % j)
        with open(pf, 'w') as f:
            for n, ls in progs[j::workers]:
                f.write('@%s\n%s\n' % (n, '\n'.join(ls)))
        with open(tr + '.log', 'w') as lf:
            r = subprocess.run([binary, pf, tr, os.path.join(base, str(j)), str(execs), str(seed * 101 + j if execs > 1 else seed),
                                str(seconds)], stdout=subprocess.PIPE, stderr=lf, text=True, env=e, timeout=seconds + 120)
        log = open(tr + '.log', errors='replace').read()
        if r.returncode != 0:
            raise efsw.CheckError('concw failed (rc %s): %s' % (r.returncode, log[-2000:]))
        return tr, json.loads(r.stdout), log
    try:
        with ThreadPoolExecutor(workers) as ex:
            res = list(ex.map(one, range(workers)))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    logs = {}
    for _, _, lg in res:
        for part in lg.split('\n== ')[0:]:
            part = part[3:] if part.startswith('== ') else part
            if part.strip():
                logs.setdefault(part.split(' ', 1)[0], part)
    st = {k: sum(r[1][k] for r in res) for k in ('executions', 'distinct', 'blocks')}
    return [r[0] for r in res], st, logs


def split_name(s):
    n, _, sd = s.rpartition('!')
    return n, int(sd)
