"""What every check explores and which anomalies count against its property.

A profile is one run of TLC on a generator specification: mode 'sim' samples behaviours,
mode 'bfs' visits every transition of the bounded state graph and prints one history for
each (optionally a seeded sample of them), mode 'all' prints every history."""

ALWAYS = {'crash', 'hang', 'dead', 'thread2'}

BASE = dict(FNames=["f", "g", "ab"], DNames=["B", "D", "a", "ab"], MaxOps=14, MaxWin=5, MaxDepth=4, MaxDirs=12,
            Batches=[0, 1, 2, 3])
FILEOPS = ["mk", "mkr", "wr", "trunc", "rm", "mv", "step"]
ALLOPS = ["mk", "mkr", "wr", "trunc", "rm", "mkdir", "rmdir", "mv", "mvd", "step"]
TREEOPS = ["mk", "mkr", "wr", "rm", "mkdir", "rmdir", "mv", "mvd"]
POLLOPS = TREEOPS + ["trunc", "ln", "attr", "own", "utime"]
APIOPS = ["add", "rmid", "rmraw", "rmpath", "dirs", "err", "watch"]
LINKOPS = TREEOPS + ["sym", "rml", "mvl", "fifo"]
ODD = dict(FNames=["a%20b", "%FF%FE", "x%0Ay", ".h", "%E2%82%AC%22"], DNames=["B", "%20", "%C3%A9", "-n"])
LONG = dict(FNames=["f", "L" * 255, "M" * 200], DNames=["B", "K" * 255, "N" * 120])


def env(confs, ops, num, **kw):
    c = dict(BASE)
    c.update(Confs=confs, OpKinds=ops)
    c.update(kw)
    return dict(module='Env', consts=c, num=4 * num, workers=1)  # (one worker: the same histories for the same seed)


def bfs(confs, ops, n, sample=None, mode='bfs', **kw):
    c = dict(BASE, FNames=["f"], DNames=["B", "D"], MaxDepth=3, MaxDirs=6, Batches=[0])
    c.update(Confs=confs, OpKinds=ops, MaxOps=n, MaxWin=n)
    c.update(kw)
    return dict(module='Env', consts=c, mode=mode, sample=sample, workers=4, timeout=900)


NATCONFS = [1, 2, 3, 4, 5, 9, 10, 11, 12]
RECSYN = [1, 4, 9, 11, 12]
SMALL = ["mk", "rm", "mkdir", "rmdir", "mv", "mvd"]
POLLC = [21, 22, 23, 24, 25]
CAPIC = [61, 62, 64, 65]


def conc(confs, kinds, ops, num, **kw):
    c = dict(Confs=confs, Kinds=kinds, Threads=2, Ops=6, OpKinds=ops, Ends=["full"])
    c.update(kw)
    return dict(module='ConcEnv', consts=c, num=2 * num, workers=1, depth=40)


CALLS = ["add", "rmid", "rmpath", "dirs", "mk", "mkdir", "cb", "misc"]


def deeper(*profs):
    return lambda: list(profs)

CTECH = ('TLA+ program generator and linearizability contract; TLC-generated concurrent programs run in the real library under a '
         'controlled scheduler, recorded executions validated by TLC')
CNOTE = ('TLC generates small concurrent programs (client threads, callbacks, the end of the object); the real library runs each under '
         'many controlled schedules (preemption at basic blocks), and TLC decides for every distinct execution whether some order of '
         'the calls explains it. Bounded programs and sampled schedules, exact oracle per execution.')


# property -> classes that count against it, profiles (k = 1 quick, larger for thorough)
CHECKS = {
    'C01': dict(classes={'lost', 'lostR', 'form', 'route', 'uncovered'},
                profiles=lambda k: [env(NATCONFS, ALLOPS, 150 * k), env([2, 3, 6, 7, 8], ALLOPS, 60 * k),
                                    env([3, 10], FILEOPS, 40 * k, MaxWin=8, MaxOps=16),
                                    env([1, 2, 3, 72], ALLOPS, 30 * k, **ODD), env([2, 9], ALLOPS, 10 * k, **LONG),
                                    bfs([10], SMALL, 2)],
                thorough=deeper(bfs([10], SMALL, 3, 15000), bfs([2], ["mk", "wr", "rm", "mvd", "mkdir", "step"], 3, 8000))),
    'C02': dict(classes={'phantom', 'phantomV', 'route', 'early', 'order'},
                profiles=lambda k: [env(NATCONFS, ALLOPS, 150 * k), env([2, 3, 6, 7, 8], ALLOPS, 80 * k),
                                    env([1, 2, 4], ["mkdir", "mvd", "mk", "rm", "step"], 50 * k, MaxWin=4),
                                    env([13, 14, 15], LINKOPS + ["step"], 50 * k),
                                    bfs([9], SMALL, 2)],
                thorough=deeper(bfs([9, 10], SMALL, 3, 20000))),
    'C03': dict(classes={'lostR', 'phantomV', 'phantom', 'lost', 'order'},
                profiles=lambda k: [env(NATCONFS, ["mk", "mv", "mvd", "mkdir", "rm", "step"], 160 * k),
                                    env([1, 4, 5, 6, 7, 8, 12], ["mv", "mvd", "step"], 80 * k, MaxWin=7),
                                    bfs([10], ["mv", "mvd", "rm", "step"], 2, FNames=["f", "g"]),
                                    bfs([4], ["mv", "mvd"], 2, 500)],
                thorough=deeper(bfs([10], ["mv", "mvd", "rm"], 3, 15000, FNames=["f", "g"]),
                                bfs([1, 4], ["mv", "mvd"], 2))),
    'C04': dict(classes={'uncovered', 'leftover', 'lost', 'phantom'},
                profiles=lambda k: [env([1, 2, 4, 9, 10, 12], ["mkdir", "rmdir", "mvd", "mk", "step"], 160 * k),
                                    env([1, 2, 4, 6, 7], ["mkdir", "rmdir", "mvd", "rm", "step"], 80 * k, MaxWin=7, MaxDepth=5, MaxDirs=14),
                                    env([1, 2, 4], ["mkdir", "rmdir", "mvd", "mk", "inj", "step"], 60 * k),
                                    bfs([10], ["mkdir", "rmdir", "mvd"], 3, 700)],
                thorough=deeper(bfs([10, 9], ["mkdir", "rmdir", "mvd"], 3, 15000),
                                bfs([2], ["mkdir", "rmdir", "mvd"], 2))),
    'C05': dict(classes={'mirror'},
                profiles=lambda k: [env(RECSYN, ALLOPS, 140 * k),
                                    env(RECSYN, ["mkdir", "mk", "mvd", "mv", "rm", "step"], 80 * k, MaxWin=7),
                                    env([1, 4, 9], ["mkdir", "mk", "mkr", "mvd", "mv", "rm", "inj", "step"], 80 * k),
                                    env([1, 12], ALLOPS, 20 * k, **ODD),
                                    bfs([9], SMALL, 2)],
                thorough=deeper(bfs([9], SMALL, 3, 15000), bfs([9], ["mk", "mkdir", "inj"], 3, 8000))),
    'C06': dict(classes={'order', 'mirror'},
                profiles=lambda k: [env(NATCONFS, ALLOPS, 170 * k),
                                    env([1, 3, 4, 10], FILEOPS, 90 * k, MaxWin=8, MaxOps=16),
                                    env([1, 2], FILEOPS, 40 * k, MaxWin=6, Batches=[1]),
                                    bfs([3], FILEOPS, 3, 600)],
                thorough=deeper(bfs([3], FILEOPS, 3, 15000), bfs([9], FILEOPS, 3, 8000))),
    'C07': dict(classes={'missed', 'missedextra', 'misseddir', 'lost', 'lostR', 'cback'},
                profiles=lambda k: [env([1, 2, 3, 4, 5, 6, 12, 64], TREEOPS + ["overflow", "step"], 150 * k, MaxOps=16),
                                    env([1, 2, 4, 5, 6, 12, 61, 64], ["mk", "mkr", "wr", "rm", "mkdir", "mv", "overflow", "step"], 90 * k, MaxOps=16),
                                    env([17, 18, 61, 64, 65], TREEOPS + APIOPS + ["overflow", "step"], 80 * k, MaxOps=18),
                                    env([6, 35], ["mk", "rnd", "overflow"], 50 * k, MaxWin=2, MaxOps=8),
                                    env([1, 2, 3, 4, 6, 12, 61], TREEOPS + ["flood", "step"], 20 * k, Batches=[0, 3])]),
    'C08': dict(classes={'plost', 'pextra', 'pmirror', 'plostS', 'pextraS', 'pmoved'},
                profiles=lambda k: [env(POLLC, POLLOPS, 220 * k, Batches=[0]),
                                    env([21, 23, 24], TREEOPS + ["inj"], 60 * k, Batches=[0]),
                                    env([21, 22], POLLOPS, 30 * k, Batches=[0], **ODD),
                                    bfs([22], ["mk", "mkr", "wr", "trunc", "attr", "own", "utime", "rm", "mv", "ln"], 2, 700, FNames=["f", "g"])],
                thorough=deeper(bfs([22, 24], POLLOPS, 2), bfs([24], SMALL, 3, 10000))),
    'C09': dict(classes={'pmoved', 'plost', 'pextra', 'pmirror', 'plostS', 'pextraS'},
                profiles=lambda k: [env(POLLC, ["mk", "rm", "mv", "mvd", "ln", "mkdir", "rmdir"], 180 * k, Batches=[0]),
                                    env(POLLC, ["mv", "mvd", "ln", "wr"], 100 * k, Batches=[0], MaxWin=7),
                                    bfs([21, 24], ["mv", "mvd", "ln"], 2, 700, FNames=["f", "g"])],
                thorough=deeper(bfs([24, 25], ["mv", "mvd", "ln"], 2, 15000, FNames=["f", "g"]))),
    'C10': dict(classes={'plostS', 'pextraS', 'pmirror', 'plost', 'pextra'},
                profiles=lambda k: [env(POLLC, ["mk", "mkr", "rm", "mkdir", "rmdir", "mvd", "mv"], 180 * k, Batches=[0]),
                                    env([22, 25], ["mk", "wr", "rm", "mkdir", "mvd", "mv", "utime"], 90 * k, Batches=[0]),
                                    bfs([24], ["mkdir", "rmdir", "mvd", "mk"], 2)],
                thorough=deeper(bfs([24, 25], ["mkdir", "rmdir", "mvd", "mk", "rm"], 3, 12000))),
    'C11': dict(classes={'verdict', 'id', 'dirs', 'errcode'},
                profiles=lambda k: [env([16, 17, 18], APIOPS + ["sym", "rml", "mkdir", "rmdir", "mvd", "rm", "fifo"], 150 * k, MaxOps=18),
                                    env([29, 30, 32], APIOPS + ["sym", "rml", "mkdir", "rmdir", "mvd", "rm"], 80 * k, MaxOps=18),
                                    env([13, 14, 15, 16, 26, 27, 38], APIOPS + ["sym", "rml", "mkdir", "links"], 90 * k, MaxOps=18),
                                    env([14, 15, 16, 28, 29, 38], ["mk", "sym", "rml", "addl", "rmid", "links"], 50 * k, MaxOps=10),
                                    env([19, 20, 34, 71, 73], APIOPS + ["mkdir", "rmdir", "mk"], 40 * k, DNames=["B", "D", "remote1"]),
                                    bfs([16], ["add", "rmpath", "rmid"], 2, 500)],
                thorough=deeper(bfs([16, 29], ["add", "rmpath", "rmid"], 3, 12000))),
    'C12': dict(classes={'dirs', 'id', 'verdict'},
                profiles=lambda k: [env([16, 17, 18, 62, 65], APIOPS + ["dirs", "mkdir", "rmdir", "mvd", "sym"], 170 * k, MaxOps=20),
                                    env([29, 30, 32, 66], APIOPS + ["dirs", "mkdir", "rmdir", "mvd", "sym"], 90 * k, MaxOps=20),
                                    env([17, 18], APIOPS + ["cb", "mk", "wr"], 50 * k, MaxOps=20)],
                thorough=deeper(bfs([16, 29], ["add", "rmpath", "rmid", "dirs"], 3, 12000))),
    'C13': dict(classes={'afterremove', 'release', 'lost', 'lostR', 'leftover', 'uncovered', 'route'},
                profiles=lambda k: [env([4, 17, 18, 61, 64], TREEOPS + APIOPS + ["cb", "step"], 150 * k, MaxOps=18),
                                    env([4, 5, 12, 18], TREEOPS + ["rmid", "rmpath", "add", "step"], 90 * k, MaxOps=18),
                                    env([30, 23, 63], TREEOPS + ["rmid", "rmpath", "add", "cb"], 50 * k, MaxOps=16, Batches=[0]),
                                    env([4, 18], TREEOPS + ["rmid", "rmpath", "inj", "step"], 40 * k, MaxOps=16)],
                cclasses={'afterremove', 'release', 'lost', 'route'}, csecs=60,
                conc=lambda k: [conc([2, 3, 7, 9], ["native", "capi"], ["rmid", "rmpath", "mk", "mkdir", "cb"], 50 * k, Ops=7),
                                conc([6], ["native", "capi"], ["rmid", "add", "mk", "mv", "cb"], 12 * k),
                                conc([2, 3, 7], ["generic", "capigen"], ["rmid", "rmpath", "mk", "mkdir"], 20 * k, Ops=7)]),
    'C14': dict(classes={'route', 'lost', 'phantom', 'lostR', 'phantomV'},
                profiles=lambda k: [env([4, 5, 12, 6, 7, 8], ALLOPS, 160 * k),
                                    env([4, 5, 12], ["mv", "mvd", "mk", "mkdir", "step"], 80 * k, MaxWin=7),
                                    env([17, 18, 64], TREEOPS + APIOPS + ["step"], 70 * k, MaxOps=18),
                                    env([23, 25, 63], TREEOPS, 50 * k, Batches=[0])]),
    'C15': dict(classes={'uncovered', 'leftover', 'setting', 'plostS', 'pextraS', 'plost', 'pextra', 'verdict', 'lost',
                         'phantom', 'mirror', 'pmirror'},
                profiles=lambda k: [env([13, 14, 15], LINKOPS + ["step"], 120 * k),
                                    env([26, 27, 28], LINKOPS, 80 * k, Batches=[0]),
                                    env([36, 37, 38], ["sym", "rml", "mvl", "mk", "mvd", "add", "rmid"], 60 * k, MaxOps=10),
                                    env([13, 14, 15, 26, 27], TREEOPS + ["sym", "rml", "add", "rmid", "err", "links", "dirs"], 70 * k, MaxOps=16),
                                    env([14, 15, 16, 28, 29, 38], ["mk", "sym", "rml", "addl", "rmid", "links"], 50 * k, MaxOps=10)],
                thorough=deeper(bfs([13, 14], ["sym", "rml", "mvl", "mvd", "mkdir"], 2, 10000),
                                bfs([26, 27], ["sym", "rml", "mvl", "mvd", "mkdir"], 2, 8000))),
    'C16': dict(classes={'backend', 'verdict', 'dirs', 'id', 'plost', 'pextra', 'plostS', 'pextraS', 'pmirror', 'pmoved',
                         'route', 'afterremove', 'errcode'},
                profiles=lambda k: [env([31, 33], TREEOPS + ["attr", "ln"], 90 * k, Batches=[0]),
                                    env([31, 32, 33], TREEOPS + APIOPS, 140 * k, MaxOps=18, Batches=[0])]),
    'C17': dict(classes={'verdict', 'uncovered', 'lost', 'lostR', 'dirs', 'release', 'errcode', 'mirror', 'phantom'},
                profiles=lambda k: [env([1, 2, 4, 18], TREEOPS + ["fault", "step", "err"], 140 * k, MaxOps=16),
                                    env([19, 72], ["mk", "wr", "rm", "mkdir", "rmdir", "mv", "step"], 30 * k, DNames=["B", "D", "remote1"]),
                                    env([16, 17, 18, 61], APIOPS + ["fault", "mkdir", "rmdir", "mk", "wr", "mvd"], 110 * k, MaxOps=18),
                                    env([3, 10, 4], FILEOPS + ["fault"], 50 * k, MaxOps=16)]),
    'C18': dict(technique=CTECH, note=CNOTE, cclasses={'del', 'afterdel', 'release'}, csecs=120,
                conc=lambda k: [conc([1, 2, 3, 4, 5, 7, 9], ["native", "capi", "generic", "capigen"],
                                     ["add", "rmid", "mk", "mkdir", "cb"], 60 * k, Ends=["del", "pending"]),
                                conc([2, 3, 4, 5, 9], ["native", "capi"], CALLS, 30 * k, Threads=3, Ops=8, Ends=["del", "pending"]),
                                conc([6], ["native", "capi"], ["add", "mk", "mv", "cb"], 10 * k, Ends=["del", "pending"]),
                                conc([8], ["native", "capi", "generic", "capigen"], ["add", "mk", "watch", "del"], 40 * k,
                                     Threads=3, Ops=10, Ends=["del", "full"])]),
    'C19': dict(technique=CTECH, note=CNOTE, cclasses={'lin', 'id', 'dirs', 'release', 'lost', 'route', 'early', 'phantom', 'missedextra'}, csecs=140,
                conc=lambda k: [conc([1, 2, 3, 4, 5, 7, 9], ["native", "capi"], CALLS, 60 * k, Threads=3, Ops=8),
                                conc([1, 2, 3, 4, 7], ["native", "capi"], ["add", "rmid", "rmpath", "dirs"], 30 * k, Ops=5),
                                conc([1, 2, 3, 4, 5, 7, 9], ["generic", "capigen"], CALLS, 40 * k, Threads=3, Ops=8),
                                conc([6], ["native", "capi"], CALLS[:5] + ["mv", "cb", "misc"], 20 * k, Ops=7),
                                conc([8], ["native", "capi", "generic", "capigen"], ["add", "rmid", "dirs", "mk", "watch", "del", "misc"],
                                     30 * k, Threads=3, Ops=11, Ends=["del", "full"])]),
    'C20': dict(classes={'cback', 'route', 'verdict', 'id', 'dirs', 'setting', 'errcode', 'errtext', 'errc', 'misseddir', 'missed',
                         'missedextra', 'afterdel', 'release', 'lost', 'phantom', 'plost', 'pextra'},
                profiles=lambda k: [env(CAPIC, TREEOPS + APIOPS + ["links", "step", "overflow"], 150 * k, MaxOps=18),
                                    env([63, 66], TREEOPS + APIOPS + ["links"], 70 * k, MaxOps=18, Batches=[0]),
                                    env([61, 64, 65], TREEOPS + ["cb", "rmid", "rmpath", "add", "overflow"], 70 * k, MaxOps=16)]),
    'C21': dict(classes={'early', 'lost', 'lostR', 'plost', 'plostS'},
                profiles=lambda k: [env([16, 17, 62, 65], TREEOPS + ["add", "rmid", "watch", "watch", "step"], 170 * k, MaxOps=18),
                                    env([29, 30, 66, 33], TREEOPS + ["add", "rmid", "watch"], 80 * k, MaxOps=18, Batches=[0])]),
    'C22': dict(classes={'errcode', 'errtext', 'errpath', 'errc'},
                profiles=lambda k: [env([16, 17, 18, 62], ["add", "err", "err", "rmpath", "rmid", "sym", "links", "fault", "mkdir"], 160 * k, MaxOps=20),
                                    env([29, 30, 32, 66], ["add", "err", "rmpath", "rmid", "sym", "links", "mkdir"], 80 * k, MaxOps=20)]),
}
