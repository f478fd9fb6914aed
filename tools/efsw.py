"""Shared machinery: build the harness from /repo, generate scenarios from the
specifications with TLC, run them against the real library, validate the recorded
traces with TLC."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'


class CheckError(Exception):
    pass


def log(*a):
    print('[%s]' % time.strftime('%H:%M:%S'), *a, file=sys.stderr, flush=True)


def tlc(workdir, module, cfg, args=(), env=None, timeout=600, heap='2g', specdir=SPEC):
    """Runs TLC in a private metadir; returns (returncode, stdout)."""
    os.makedirs(workdir, exist_ok=True)
    cfgf = os.path.join(workdir, 'c%08x.cfg' % random.getrandbits(32))
    with open(cfgf, 'w') as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(dir=workdir)
    e = dict(os.environ)
    e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss16m -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Djava.io.tmpdir=%s' % (heap, workdir)
    e.update(env or {})
    out = cfgf + '.out'
    with open(out, 'w') as f:
        try:
            r = subprocess.run(['tlc', '-metadir', meta, '-noGenerateSpecTE', '-config', cfgf, *args, module + '.tla'],
                               cwd=specdir, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    with open(out, errors='replace') as f:
        return rc, f.read()


def cfg_text(consts, spec='Spec', extra=''):
    def v(x):
        if isinstance(x, bool):
            return 'TRUE' if x else 'FALSE'
        if isinstance(x, (set, frozenset, list, tuple)):
            return '{' + ', '.join(sorted(v(y) for y in x)) + '}'
        if isinstance(x, int):
            return str(x)
        return '"%s"' % x
    return ('SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n' % spec +
            ('CONSTANTS\n' + ''.join(' %s = %s\n' % (k, v(x)) for k, x in consts.items()) if consts else '') +
            extra)


def build(out, script='build.sh'):
    r = subprocess.run(['bash', os.path.join(VERIF, 'harness', script), out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError('harness build failed:\n' + r.stdout[-4000:])


STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def generate(work, p, seed):
    """Runs a generator profile; returns (scenarios, info).  A scenario is a list of lines,
    the first being the @name of its configuration."""
    mod = p.get('module', 'Env')
    args, extra = [], p.get('extra', '')
    if p.get('mode', 'sim') == 'sim':
        args = ['-simulate', 'num=%d' % p['num'], '-depth', str(p.get('depth', 80)), '-seed', str(seed),
                '-workers', str(p.get('workers', 2))]
    else:
        args = ['-workers', str(p.get('workers', 4))]
        extra += ('VIEW View\n' if p['mode'] == 'bfs' else '') + 'ACTION_CONSTRAINT Emit\n'
    rc, out = tlc(work, mod, cfg_text(p['consts'], extra=extra), args, timeout=p.get('timeout', 300),
                  heap=p.get('heap', '2g'))
    sc = []
    for line in out.splitlines():
        if line.startswith('"['):
            try:
                sc.append(json.loads(json.loads(line)))
            except ValueError:
                raise CheckError('bad generator line: ' + line[:200])
    if 'Error:' in out or rc not in (0,):
        raise CheckError('generator %s failed (rc %s):\n%s' % (mod, rc, '\n'.join(
            l for l in out.splitlines() if not l.startswith('"['))[-3000:]))
    if p.get('mode', 'sim') == 'sim':
        m = re.search(r'The number of states generated: (\d+)', out)
        info = {'states': int(m.group(1)) if m else 0, 'transitions': int(m.group(1)) if m else 0}
    else:
        m = STATS.search(out)
        info = {'states': int(m.group(2)) if m else 0, 'transitions': int(m.group(1)) if m else 0, 'emitted': len(sc)}
        sc.sort()
        if p.get('sample') and len(sc) > p['sample']:
            sc = random.Random(seed).sample(sc, p['sample'])
    return sc, info


def scratch_base():
    for b in ('/dev/shm', '/tmp'):
        if os.path.isdir(b) and os.access(b, os.W_OK):
            return tempfile.mkdtemp(prefix='efswv', dir=os.path.realpath(b))
    raise CheckError('no scratch directory')


def USERCONF(name):
    """Histories to be run as an ordinary user."""
    return re.match(r'c7\d\.', name) is not None


def _worker(binary, scns, trace, scratch, tmo, env, budget):
    """scns: list of (name, lines).  Restarts after crash or hang."""
    os.makedirs(scratch, exist_ok=True)
    i = 0
    t_end = time.time() + budget
    open(trace, 'w').close()
    outs = {}
    hangs = 0
    while i < len(scns):
        if time.time() > t_end:
            break
        scn = trace + '.scn'
        with open(scn, 'w') as f:
            for n, ls in scns[i:]:
                f.write('@' + n + '\n' + '\n'.join(ls) + '\n')
        part = trace + '.part'
        if os.path.exists(part):
            os.unlink(part)
        user = {}
        if USERCONF(scns[i][0]):
            open(part, 'w').close()
            for x in (part, scratch):
                os.chown(x, 65534, 65534)
            user = dict(user=65534, group=65534, extra_groups=[])
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
        e.update(env or {})
        hard = False
        with open(trace + '.log', 'w') as lf:
            try:
                r = subprocess.run([binary, scn, part, scratch, str(tmo)], stdout=lf, stderr=subprocess.STDOUT, env=e, **user,
                                   timeout=max(30, t_end - time.time() + tmo))
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc, hard = -9, True
        lines = open(part, errors='replace').read().splitlines() if os.path.exists(part) else []
        good, done, last = [], 0, None
        for ln in lines:
            try:
                ev = json.loads(ln)
            except ValueError:
                break
            good.append(ln)
            if ev['e'] == 'reset':
                done, last = done + 1, ev
        complete = rc == 0
        if rc == 2:
            raise CheckError('harness refused: ' + open(trace + '.log', errors='replace').read()[-2000:])
        if not complete:
            # the last scenario crashed or hung
            if done == 0:
                raise CheckError('harness died at start rc=%s: %s' % (rc, open(trace + '.log', errors='replace').read()[-2000:]))
            if not any('"e":"crash"' in g or '"e":"hang"' in g for g in good[-1:]):
                good.append('{"e":"%s"}' % ('hang' if hard or rc == 78 else 'crash'))
            hangs += hard or rc == 78
            outs[scns[i + done - 1][0]] = open(trace + '.log', errors='replace').read()[-6000:]
        with open(trace, 'a') as f:
            f.write('\n'.join(good) + '\n')
        i = i + done if not complete else len(scns)
        if hangs >= 2:
            break
    return outs, i


def execute(binary, scns, work, workers=24, tmo=30, env=None, budget=600):
    """Runs scenarios [(name, lines)] on the real library; returns (trace files, crash logs, executed count)."""
    os.makedirs(work, exist_ok=True)
    base = scratch_base()
    try:
        us = [x for x in scns if USERCONF(x[0])]
        ro = [x for x in scns if not USERCONF(x[0])]
        wu = min(len(us), max(1, workers // 4)) if us else 0
        wr = min(len(ro), workers - wu)
        workers = wu + wr
        parts = [ro[j::wr] for j in range(wr)] + [us[j::wu] for j in range(wu)]
        if us:
            d = os.path.abspath(work)
            while d not in ('/', '/tmp'):
                os.chmod(d, 0o755)
                d = os.path.dirname(d)
            os.chmod(base, 0o755)
        with ThreadPoolExecutor(workers) as ex:
            fs = [ex.submit(_worker, binary, parts[j], os.path.join(work, 'trace%d.nd' % j),
                            os.path.join(base, str(j)), tmo, env, budget) for j in range(workers)]
            logs, n = {}, 0
            for f in fs:
                o, c = f.result()
                logs.update(o)
                n += c
        return [os.path.join(work, 'trace%d.nd' % j) for j in range(workers)], logs, n
    finally:
        subprocess.run(['chmod', '-R', 'u+rwx', base], stderr=subprocess.DEVNULL)
        shutil.rmtree(base, ignore_errors=True)


def validate(traces, work, procs=8, module='EfswTrace', timeout=600, maxlines=12000):
    """Validates trace files; returns (anomalies [(sc, line, class, detail)], stats, line store)."""
    os.makedirs(work, exist_ok=True)
    blocks = []
    for t in traces:
        cur = None
        for ln in open(t, errors='replace'):
            if '"e":"reset"' in ln:
                cur = []
                blocks.append(cur)
            if cur is not None and ln.strip():
                cur.append(ln if ln.endswith('\n') else ln + '\n')
    total = sum(len(b) for b in blocks)
    k = max(1, min(procs, len(blocks)))
    while total / k > maxlines:
        k += procs
    groups = [[0, []] for _ in range(k)]
    for b in sorted(blocks, key=len, reverse=True):
        g = min(groups, key=lambda x: x[0])
        g[0] += len(b)
        g[1].append(b)
    files = []
    for j, g in enumerate(groups):
        if not g[1]:
            continue
        fn = os.path.join(work, 'val%d.nd' % j)
        with open(fn, 'w') as f:
            for b in g[1]:
                f.writelines(b)
        files.append((fn, g[0]))
    cfg = 'SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n'
    unjudged = []

    def one(x):
        fn, n = x
        an = []
        for again in range(6):
            rc, out = tlc(work, module, cfg, ['-workers', '1'], env={'TRACE': fn}, timeout=timeout, heap='1500m')
            an = []
            for line in out.splitlines():
                if line.startswith('"{'):
                    try:
                        o = json.loads(json.loads(line))
                    except ValueError:
                        raise CheckError('bad anomaly line ' + line[:300])
                    for c in o['s']:
                        an.append((o['sc'], o['l'], c[0], c[1]))
            if rc == 0 and 'Model checking completed' in out:
                return an
            # a trace the specification cannot evaluate is set aside; the others are judged without it
            text = out[out.find('Error:'):]
            at = re.findall(r'/\\ sc = "([^"]*)"', text)
            msg = '\n'.join(l for l in text.splitlines() if not l.startswith('"{') and ' |-> ' not in l and ':>' not in l
                            and not l.startswith(('/\\', 'State ')) and l.strip())[:2000]
            if not at or not at[-1] or again == 5:
                raise CheckError('trace validation failed (rc %s) on %s:\n%s' % (rc, fn, msg))
            unjudged.append((at[-1], msg))
            log('trace not judged:', at[-1], msg[:700])
            keep, on = [], True
            for ln in open(fn, errors='replace'):
                if '"e":"reset"' in ln:
                    on = '"%s"' % at[-1] not in ln
                if on:
                    keep.append(ln)
            if not keep:
                return an
            with open(fn, 'w') as f:
                f.writelines(keep)
    with ThreadPoolExecutor(procs) as ex:
        an = [a for r in ex.map(one, files) for a in r]
    return an, {'lines': total, 'scenarios': len(blocks), 'unjudged': unjudged}


def name_scenarios(sc, tag):
    seen, out = set(), []
    for s in sc:
        key = '\n'.join(s)
        if key in seen:
            continue
        seen.add(key)
        out.append(('%s.%s.%d' % (s[0][1:], tag, len(out)), s[1:]))
    return out


def load_scn(path):
    sc, cur = [], None
    for l in open(path):
        l = l.rstrip('\n')
        if l.startswith('@'):
            cur = (l[1:], [])
            sc.append(cur)
        elif l.strip() and not l.startswith('#'):
            cur[1].append(l)
    return sc


def gather(chk, tier, seed, work):
    """All scenarios of a check: from its generator profiles.  Returns (scenarios, models, states, transitions)."""
    k = 1 if tier == 'quick' else chk.get('deep', 6)
    profs = chk['profiles'](k)
    if tier != 'quick' and 'thorough' in chk:
        profs = profs + chk['thorough']()
    scs, models, states, trans = [], [], 0, 0

    def one(j):
        p = profs[j]
        t = time.time()
        raw, info = generate(os.path.join(work, 'g%d' % j), p, seed * 1000 + j)
        return name_scenarios(raw, 'p%d' % j), dict(module=p.get('module', 'Env'), mode=p.get('mode', 'sim'),
                                                  constants=p['consts'], seconds=round(time.time() - t, 1), **info)
    with ThreadPoolExecutor(5) as ex:
        for sc, m in ex.map(one, range(len(profs))):
            m['scenarios'] = len(sc)
            scs += sc
            models.append(m)
            states += m['states']
            trans += m['transitions']
    if not scs:
        raise CheckError('no scenarios generated')
    # histories that once showed a defect
    confs = {c for p in profs for c in p['consts'].get('Confs', [])}
    kept = [x for x in load_scn(os.path.join(VERIF, 'corpus', 'regress.scn'))
            if int(re.match(r'c(\d+)\.', x[0]).group(1)) in confs]
    if kept:
        models.append(dict(module='kept histories', scenarios=len(kept)))
    scs += kept
    return scs, models, states, trans
