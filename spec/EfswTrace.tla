------------------------------ MODULE EfswTrace ------------------------------
(***************************************************************************)
(* Trace validation: replays a recorded execution of the real library and  *)
(* prints every deviation from the contract as one JSON line; `bad` counts *)
(* them.                                                                   *)
(***************************************************************************)
EXTENDS PollContract, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES l,      \* next line
          sc,     \* current scenario
          fs,     \* file system
          fw,     \* watcher objects
          ws,     \* watches, keyed by <<watcher object, id>>
          cl,     \* call in progress per watcher object: [f, ops]
          le,     \* last error: expected code, text (per code), path
          bad
vars == <<l, sc, fs, fw, ws, cl, le, bad>>

\* alt: errors that a call may have left behind although it succeeded (a part of it failed);
\* any: a system call failed somewhere
NoErr == [code |-> 0, paths |-> {}, texts |-> NoFun, alt |-> {}, any |-> FALSE]

Init == /\ l = 1 /\ sc = "" /\ fs = FsEmpty /\ fw = NoFun /\ ws = NoFun /\ cl = NoFun
        /\ le = NoErr /\ bad = 0

E == Trace[l]
Is(e) == l <= N /\ E.e = e /\ l' = l + 1

Report(S) == \* S: set of <<class, detail>>
  IF S = {} THEN bad' = bad
  ELSE /\ bad' = bad + Cardinality(S)
       /\ PrintT(ToJson([sc |-> sc, l |-> l, s |-> S]))

Live(k) == {x \in DOMAIN ws : x[1] = k /\ ws[x].live}
Cfg(k) == [follow |-> fw[k].follow, oos |-> fw[k].oos]

Reset == /\ Is("reset")
         /\ sc' = E.sc /\ fs' = FsEmpty /\ fw' = NoFun /\ ws' = NoFun /\ cl' = NoFun
         /\ le' = NoErr /\ bad' = bad

(* ------------------------------ the world ------------------------------ *)
DirMoves(o) == o.op = "mv" /\ fs.kind[o.i] = "d"
Touched(f, o) ==
  {Lookup(f, o.d)} \cup (IF o.op = "mv" THEN {o.i, Lookup(f, o.d2)} ELSE {}) \cup
  (IF o.op = "attr" THEN {ResolveI(f, f.ents[Lookup(f, o.d)][o.n])} ELSE {})
\* names that files have left, and where directories arrive
Vacated(o) == IF o.op = "rm" \/ (o.op = "mv" /\ fs.kind[o.i] # "d") THEN {Append(o.d, o.n)} ELSE {}
Arrival(o) == IF o.op = "mkdir" THEN {Append(o.d, o.n)} ELSE IF DirMoves(o) THEN {Append(o.d2, o.n2)} ELSE {}
LinkOp(o) == o.op = "sym" \/ (o.op \in {"rm", "mv"} /\ fs.kind[o.i] = "l")
LinkTo(i) == \E j \in DOMAIN fs.tgt : LET t == ResolveI(fs, j) IN t # -1 /\ fs.kind[t] = "d" /\ Under(fs, t, i)
Murky(V, U) == \E a \in DOMAIN V.pth, b \in DOMAIN U.pth : a # b /\ V.pth[a] \cap U.pth[b] # {}

Op == /\ Is("op")
      /\ IF ~FsAgrees(fs, E)
         THEN /\ Report({<<"model", E>>}) /\ UNCHANGED <<sc, fs, fw, ws, cl, le>>
         ELSE LET f2 == FsApply(fs, E) IN
              /\ fs' = f2
              /\ LET ws1 == [x \in DOMAIN ws |->
                          LET W == ws[x] IN
                          IF ~W.live \/ W.off THEN W
                          ELSE IF ~W.native
                          THEN LET lnk == LinkOp(E)
                                   ren == DirMoves(E) \/ E.op = "rmdir"
                                   t == IF lnk THEN ResolveI(IF E.op = "sym" THEN f2 ELSE fs, E.i) ELSE -1
                                   \* a directory and a link to it changing places look like a rename
                                   puzzle == \/ DirMoves(E) /\ (LinkTo(E.i) \/ E.i \in W.fp)
                                             \/ t \in W.may
                                             \/ Cfg(x[1]).follow /\ (lnk \/ W.lnk) /\ (ren \/ W.ren)
                               IN [W EXCEPT !.may = @ \cup Touched(fs, E), !.mid = @ \/ E.th = x[1], !.lnk = @ \/ lnk, !.ren = @ \/ ren,
                                            !.fp = IF t = -1 THEN @ ELSE @ \cup {t}, !.off = @ \/ puzzle]
                          ELSE LET W0 == NatOp(W, fs, f2, E, Cfg(x[1]))
                                   \* a covered directory leaves one that nobody covers any more:
                                   \* nothing tells the watcher, which keeps the path it knows
                                   stuck == /\ DirMoves(E)
                                            /\ \E y \in Live(x[1]) : \E c \in ws[y].clash : /\ c # E.i /\ Under(fs, E.i, c)
                                                                                         /\ \A z \in Live(x[1]) : ws[z].root # c
                                   W1 == IF stuck THEN [W0 EXCEPT !.hole = @ \cup {E.i}, !.mirOn = FALSE,
                                                                  !.sure = {d \in @ : ~Under(f2, d, E.i)}] ELSE W0
                                   W2 == [W1 EXCEPT !.ren = @ \/ DirMoves(E), !.rmd = @ \/ E.op = "rmdir", !.fp = @ \cup Vacated(E),
                                                    !.mirOn = @ /\ (~(W.ren \/ DirMoves(E)) \/ Arrival(E) \cap W.fp = {})]
                                   moved == DirMoves(E) /\ Under(fs, W.root, E.i)
                                   \* the watched directory itself was moved: known to the
                                   \* watcher only if it was a local rename it could see
                                   seen == moved /\ Lookup(fs, E.d) = Lookup(fs, E.d2)
                                           /\ \E y \in Live(x[1]) : Lookup(fs, E.d) \in ws[y].sure
                                   \* the root of one watch was moved into, or out of, the tree
                                   \* of another
                                   \* of another, or deleted: the path stays taken by the other
                                   meets == \/ DirMoves(E) /\ (Lookup(fs, E.d2) \in W.seen \/ Lookup(fs, E.d) \in W.seen) /\
                                               \E y \in Live(x[1]) \ {x} : Under(fs, ws[y].root, E.i)
                                            \/ E.op = "rmdir" /\ Lookup(fs, E.d) \in W.seen /\
                                               \E y \in Live(x[1]) \ {x} : ws[y].root = E.i
                                   \* a covered directory went from one watch to a directory
                                   \* that another watch may not have met yet
                                   crosses(V, U) == /\ E.i \in V.seen
                                                    /\ U.rec
                                                    /\ \/ Lookup(fs, E.d2) \in U.seen \ U.sure
                                                       \/ U.off /\ U.root # -1 /\ Under(fs, Lookup(fs, E.d2), U.root)
                                   swaps == DirMoves(E) /\
                                            \E y \in Live(x[1]) \ {x} : crosses(W, ws[y]) \/ crosses(ws[y], W)
                                   \* reached through a link before, a part of a tree now
                                   relinked == Cfg(x[1]).follow /\ DirMoves(E) /\ LinkTo(E.i)
                               IN IF meets \/ relinked \/ (W.lossy /\ (DirMoves(E) \/ E.op = "rmdir")) THEN [W2 EXCEPT !.off = TRUE]
                                  ELSE IF swaps /\ ~moved THEN [W2 EXCEPT !.wild = TRUE, !.mirOn = FALSE]
                                  ELSE IF moved
                                  THEN IF seen
                                       THEN [W2 EXCEPT !.path = PathOf(f2, W.root), !.rmv = TRUE, !.mirOn = FALSE,
                                                       !.pth = AddPaths(@, f2, W.seen)]
                                       ELSE [W2 EXCEPT !.off = TRUE]
                                  ELSE W2]
                     busy == {x \in DOMAIN ws1 : ws1[x].live /\ ws1[x].native /\ ~ws1[x].off}
                     rens == {x \in busy : ws1[x].ren}
                     \* a path is used again in a window with a rename of a directory
                     blur(x) == \E y \in busy : x[1] = y[1] /\ (x \in rens \/ y \in rens) /\ Murky(ws1[x], ws1[y])
                 IN ws' = IF rens = {} THEN ws1
                          ELSE [x \in DOMAIN ws1 |-> IF x \in busy /\ blur(x) THEN [ws1[x] EXCEPT !.off = TRUE] ELSE ws1[x]]
              /\ cl' = [k \in DOMAIN cl |-> [cl[k] EXCEPT !.ops = TRUE]]
              /\ le' = IF E.th >= 0 THEN [le EXCEPT !.any = TRUE] ELSE le
              /\ bad' = bad
              /\ UNCHANGED <<sc, fw>>

\* a system call was made to fail: what it was about may stay unwatched, or watched for too long
Faulted == /\ Is("faulted")
           /\ ws' = [x \in DOMAIN ws |->
                 IF x[1] # E.fw THEN ws[x]
                 ELSE IF ~ws[x].native THEN [ws[x] EXCEPT !.mid = TRUE]
                 ELSE [ws[x] EXCEPT !.mirOn = FALSE, !.hole = IF E.i >= 0 THEN @ \cup {E.i} ELSE @,
                                    !.sure = {d \in @ : E.i < 0 \/ ~Under(fs, d, E.i)},
                                    !.loose = @ \/ E.fn = "inotify_rm_watch"]]
           /\ cl' = [k \in DOMAIN cl |-> IF k = E.fw THEN [cl[k] EXCEPT !.fl = @ \cup {[fn |-> E.fn, i |-> E.i]}] ELSE cl[k]]
           /\ le' = [le EXCEPT !.any = TRUE]
           /\ UNCHANGED <<sc, fs, fw, bad>>

Tree == /\ Is("tree")
        /\ LET seen == {<<E.t[i].d, E.t[i].n, E.t[i].i>> : i \in 1..Len(E.t)}
               mine == UNION {LET p == PathOf(fs, d) IN {<<p, n, fs.ents[d][n]>> : n \in DOMAIN fs.ents[d]}
                                : d \in DirsUnder(fs, 0)}
           IN Report(IF seen = mine THEN {} ELSE {<<"model", <<"tree", seen \ mine, mine \ seen>>>>})
        /\ UNCHANGED <<sc, fs, fw, ws, cl, le>>

(* ------------------------------ interface calls ------------------------ *)
New == /\ Is("new")
       /\ fw' = (E.fw :> [native |-> E.native = 1, isC |-> E.kind \in {"capi", "capigen"},
                          follow |-> FALSE, oos |-> FALSE, started |-> FALSE, alive |-> TRUE,
                          ovf |-> FALSE, idle |-> TRUE, lost |-> FALSE]) @@ fw
       /\ LET want == IF E.kind \in {"native", "capi"} THEN {0, 1} ELSE {0}
          IN Report(IF E.native \in want THEN {} ELSE {<<"backend", E.kind>>})
       /\ UNCHANGED <<sc, fs, ws, cl, le>>

Set == /\ Is("set")
       /\ LET F == IF E.f = "follow" THEN [fw[E.fw] EXCEPT !.follow = (E.v = 1)]
                   ELSE [fw[E.fw] EXCEPT !.oos = (E.v = 1)]
          IN /\ fw' = [fw EXCEPT ![E.fw] = F]
             /\ Report(IF (E.fl = 1) = F.follow /\ (E.oo = 1) = F.oos THEN {} ELSE {<<"setting", E.f>>})
             \* links met before are judged by the settings of that moment, or by the new ones
             /\ ws' = [x \in DOMAIN ws |-> IF x[1] # E.fw THEN ws[x]
                          ELSE [ws[x] EXCEPT !.mirOn = @ /\ ~F.follow,
                                             !.off = @ \/ (ws[x].native /\ ws[x].rec /\ fs.tgt # NoFun /\ F # fw[E.fw])]]
       /\ UNCHANGED <<sc, fs, cl, le>>

Call == /\ Is("call")
        /\ cl' = (E.fw :> [f |-> E.f, ops |-> FALSE, fs |-> fs, fl |-> {}]) @@ cl
        /\ UNCHANGED <<sc, fs, fw, ws, le, bad>>

HasRemote(p) == \E i \in 1..Len(p) : p[i] \in RemoteNames

\* the documented verdict: 0 = accept, else the error codes that may be returned
Verdict(k, p) ==
  LET i == Resolve(fs, p)
      li == Lookup(fs, p)
      isLink == li # -1 /\ fs.kind[li] = "l"
      roots == {ws[x].path : x \in Live(k)}
      inGen(q) == ~fw[k].native /\ \E x \in Live(k) : q \in DOMAIN ws[x].snap
      rp == PathOf(fs, i)
      scope == IsPre(SubSeq(p, 1, Len(p) - 1), rp)
  IN IF i = -1 THEN {-1}
     ELSE IF HasRemote(p) /\ fw[k].native THEN {-5}
     ELSE IF fs.kind[i] # "d" THEN {-1}
     ELSE IF ~Readable(fs, i) THEN {-4}
     ELSE IF p \in roots \/ inGen(p) \/ (fw[k].native /\ \E x \in Live(k) : ws[x].root = i) THEN {-2}
     ELSE IF isLink /\ (rp \in roots \/ inGen(rp)) THEN {-2}
     ELSE IF isLink /\ ~(scope \/ (fw[k].follow /\ fw[k].oos)) THEN {-3}
     ELSE {0}

ErrPaths(p) == LET i == Resolve(fs, p)
                   j == Lookup(fs, p)
               IN {p} \cup (IF i = -1 THEN {} ELSE IF fs.kind[i] = "d" THEN {PathOf(fs, i)}
                            ELSE IF j # -1 /\ fs.kind[j] = "l" THEN {fs.tgt[j]} ELSE {})

RetAdd ==
  /\ Is("ret") /\ E.f = "add"
  /\ LET k == E.fw
         p == E.p
         dirty == k \notin DOMAIN cl \/ cl[k].ops
         faults == IF k \in DOMAIN cl THEN cl[k].fl ELSE {}
         v == Verdict(k, p)
         i == Resolve(fs, p)
         li == Lookup(fs, p)
         rp == IF li # -1 /\ fs.kind[li] = "l" THEN PathOf(fs, i) ELSE p
         key == <<k, E.r>>
         clash == {ws[x].root : x \in {y \in Live(k) : ws[y].native}}
         \* a watched directory was just renamed and the watcher may not know it yet
         amb == /\ v \in {{0}, {-2}} /\ \A x \in Live(k) : ws[x].native /\ ~ws[x].off => ws[x].root # i
                /\ \/ \E x \in Live(k) : ws[x].rmv \/ ws[x].off
                   \* covered since the last poll, or not any more
                   \/ ~fw[k].native /\ \E x \in Live(k) : ws[x].mid \/ ws[x].acc
                   \/ ~fw[k].native /\ i # -1 /\ \E x \in Live(k) : LET r == Resolve(fs, ws[x].path) IN r # -1 /\ i \in Cov(fs, [ws[x] EXCEPT !.root = r], Cfg(k), {})
     IN IF E.r > 0 /\ i # -1 /\ (dirty \/ 0 \in v \/ amb)
        THEN LET cov0 == Cov(fs, [root |-> i, rec |-> E.rec = 1], Cfg(k), {})
                 \* notifications that are still queued may change their owner
                 stale(V) == /\ V.native
                             /\ \E d \in cov0 : d \in V.seen
                             /\ V.off \/ V.wild \/ V.may # {} \/ V.pend # << >>
                 mixed == \E x \in Live(k) : stale(ws[x])
                 \* (what a watch whose paths are not known may still hold)
                 unknown(V) == \/ IsPre(V.path, rp) \/ IsPre(rp, V.path)
                               \/ (V.seen \cup (IF V.root = -1 THEN {} ELSE Cov(fs, V, Cfg(k), {}))) \cap cov0 # {}
                 W1 == NewNative(fs, k, E.r, i, rp, E.rec = 1, E.syn = 1, E.l, E.fn, E.ms,
                                 clash, Cfg(k), dirty \/ mixed)
                 fl == {x.i : x \in faults} \ {-1}
                 W0 == IF faults = {} THEN W1
                       ELSE [W1 EXCEPT !.mirOn = FALSE, !.hole = fl, !.sure = {d \in @ : \A h \in fl : ~Under(fs, d, h)}]
                 \* (what an overflow hid may still be registered somewhere)
                 W == IF fw[k].native THEN [W0 EXCEPT !.off = fw[k].lost \/ \E x \in Live(k) : ws[x].off /\ (ws[x].lossy \/ unknown(ws[x]))]
                      ELSE [W0 EXCEPT !.native = FALSE, !.snap = Snap(fs, W0, Cfg(k), {}), !.off = faults # {}]
                 others == [x \in DOMAIN ws |->
                              IF x[1] = k /\ ws[x].live /\ ws[x].native
                              THEN LET V == IF stale(ws[x]) THEN [ws[x] EXCEPT !.wild = TRUE, !.mirOn = FALSE, !.loose = TRUE] ELSE ws[x]
                                       inside == \E d \in Cov(fs, W, Cfg(k), {}) : d \in V.seen
                                   IN IF inside /\ Under(fs, i, V.root) /\ i # V.root
                                      THEN [V EXCEPT !.clash = @ \cup {i}, !.mirOn = FALSE,
                                              !.sure = {d \in @ : ~Under(fs, d, i)}]
                                      ELSE [V EXCEPT !.clash = @ \cup {i}]
                              ELSE ws[x]]
             IN /\ ws' = (key :> W) @@ others
                /\ Report(IF key \in Live(k) /\ ~ws[key].off THEN {<<"id", E.r>>} ELSE {})
                \* (failures of subdirectories leave their trace)
                /\ le' = [le EXCEPT !.any = @ \/ dirty, !.alt = @ \cup {<<-5, PathOf(fs, d)>> : d \in {y \in DirsUnder(fs, i) : fs.nm[y] \in RemoteNames}} \cup
                                 {<<-4, PathOf(fs, d)>> : d \in {y \in DirsUnder(fs, i) : ~Readable(fs, y)}} \cup {<<-2, ws[x].path>> : x \in {y \in Live(k) : ws[y].root \in cov0}}]
        ELSE /\ ws' = ws
             /\ Report(IF E.r = 0 \/ (~dirty /\ faults = {} /\ E.r \notin v /\ ~(amb /\ E.r = -2))
                       THEN {<<"verdict", [got |-> E.r, want |-> v, path |-> p]>>} ELSE {})
             /\ le' = IF E.r < 0 THEN [le EXCEPT !.code = E.r, !.paths = ErrPaths(p), !.alt = {}, !.any = dirty] ELSE le
  /\ cl' = Without(cl, E.fw)
  /\ UNCHANGED <<sc, fs, fw>>

\* kernel watches that belong to nobody any more
Unreleased(k, gone, left) ==
  LET mine == UNION {ws[x].seen \cup ws[x].sure : x \in gone}
      ok == UNION {ws[x].seen \cup ws[x].sure : x \in left}
  IN {d \in mine \ ok : \E i \in 1..Len(E.ino) : E.ino[i] = d}

RetRm ==
  /\ Is("ret") /\ E.f \in {"rmid", "rmpath"}
  /\ LET k == E.fw
         hit == IF E.f = "rmid" THEN {x \in Live(k) : x[2] = E.id}
                ELSE {x \in Live(k) : ws[x].path = E.p /\ ~ws[x].rmv /\ ~ws[x].ghost}
         left == Live(k) \ hit
         \* a watched directory was just renamed: which name counts?
         unclear == IF E.f = "rmid" THEN {}
                    ELSE {x \in Live(k) : ws[x].rmv /\ E.p \in ({ws[x].path} \cup
                                             (IF ws[x].root \in DOMAIN ws[x].pth THEN ws[x].pth[ws[x].root] ELSE {}))}
         \* the removed watch was the one to hear where this one went
         hits == hit \cup (IF E.f = "rmid" THEN {} ELSE {x \in Live(k) : ws[x].ghost /\ ws[x].path = E.p})
         lost(V) == \/ V.rmv /\ \E x \in hits : ws[x].ren \/ ws[x].off
                    \* the same for a directory of one of them that was below this one
                    \/ \E x \in hits, y \in left : x # y /\ ws[x].native /\ (ws[x].ren \/ ws[x].off \/ ws[y].ren) /\ ws[x].seen \cap ws[y].seen # {}
                    \* polled once only, although several watches have links to it
                    \/ ~V.native /\ fw[k].follow /\ fs.tgt # NoFun /\ hits # {}
         \* directories it had taken from this one are not watched any more
         holed(V) == V.native /\ \E x \in hits : V.seen \cap ws[x].seen # {}
     IN /\ ws' = [x \in DOMAIN ws |-> IF x \in hit THEN [ws[x] EXCEPT !.live = FALSE]
                                      ELSE IF x \in left /\ (lost(ws[x]) \/ x \in unclear) THEN [ws[x] EXCEPT !.off = TRUE, !.ghost = @ \/ ws[x].rmv]
                                      \* its path is unclear, was it this one?
                                      ELSE IF x \in left /\ ws[x].off /\ E.f = "rmpath" THEN [ws[x] EXCEPT !.ghost = TRUE]
                                      ELSE IF x \in left /\ holed(ws[x]) THEN [ws[x] EXCEPT !.loose = TRUE, !.mirOn = FALSE] ELSE ws[x]]
        /\ Report(LET u == Unreleased(k, hit, left)
                  IN IF fw[k].native /\ u # {} /\ ~(\E x \in hit : ws[x].off) /\ ~fw[k].lost THEN {<<"release", u>>} ELSE {})
  /\ cl' = Without(cl, E.fw)
  /\ UNCHANGED <<sc, fs, fw, le>>

RetWatch == /\ Is("ret") /\ E.f = "watch"
            /\ fw' = [fw EXCEPT ![E.fw].started = TRUE]
            /\ cl' = Without(cl, E.fw)
            /\ UNCHANGED <<sc, fs, ws, le, bad>>

RetDel == /\ Is("ret") /\ E.f = "del"
          /\ fw' = [fw EXCEPT ![E.fw].alive = FALSE]
          /\ ws' = [x \in DOMAIN ws |-> IF x[1] = E.fw THEN [ws[x] EXCEPT !.live = FALSE] ELSE ws[x]]
          /\ Report((IF E.thr = 0 THEN {} ELSE {<<"del", "thread still running">>}) \cup
                    (IF E.open = 0 THEN {} ELSE {<<"del", "descriptor still open">>}))
          /\ cl' = Without(cl, E.fw)
          /\ UNCHANGED <<sc, fs, le>>

Dirs == /\ Is("dirs")
        /\ LET got == E.ds
               want == {ws[x].path : x \in Live(E.fw)}
               okk == /\ E.ok = 1
                      /\ Range(got) = want
                      /\ Len(got) = Cardinality(Live(E.fw))
               anyOff == \E x \in Live(E.fw) : ws[x].off
               \* renamed just now, or deleted and below something renamed
               vague == {x \in Live(E.fw) : ws[x].native /\ (ws[x].rmv \/ ws[x].wild \/ (ws[x].root # 0 /\ fs.par[ws[x].root] = -1))}
               okv == /\ vague # {} /\ E.ok = 1 /\ Len(got) = Cardinality(Live(E.fw))
                      /\ {ws[x].path : x \in Live(E.fw) \ vague} \subseteq Range(got)
           IN Report(IF okk \/ okv \/ anyOff THEN {} ELSE {<<"dirs", [got |-> got, want |-> want]>>})
        /\ UNCHANGED <<sc, fs, fw, ws, cl, le>>

ErrQ == /\ Is("err")
        /\ LET known == E.code \in DOMAIN le.texts
               t1 == IF E.code = 0 THEN le.texts ELSE (E.code :> E.text) @@ le.texts
               \* (the text of an unspecified error is that of the system)
               clash == E.code # -7 /\ \E c \in DOMAIN le.texts \ {-7} :
                          (c = E.code) # (le.texts[c] = E.text)
               \* the watcher registers directories by itself, too
               async == \/ E.code = -2 /\ \E x \in DOMAIN ws : ws[x].clash # {}
                        \/ E.code \in {-2, -3} /\ fs.tgt # NoFun
                        \/ E.code = -5 /\ \E d \in DOMAIN fs.nm : fs.nm[d] \in RemoteNames
               b == IF async \/ le.any THEN {} ELSE IF E.code # le.code /\ <<E.code, E.p>> \notin le.alt THEN {<<"errcode", [got |-> E.code, want |-> le.code]>>}
                    ELSE IF E.code = 0
                         THEN IF E.text = "" /\ E.names = 0 THEN {} ELSE {<<"errtext", E.text>>}
                    ELSE (IF E.names = 1 /\ (E.p \in le.paths \/ <<E.code, E.p>> \in le.alt) THEN {} ELSE {<<"errpath", E.p>>}) \cup
                         (IF clash \/ E.text = "%3CP%3E" THEN {<<"errtext", E.text>>} ELSE {}) \cup
                         (IF E.same = 1 THEN {} ELSE {<<"errc", E.text>>})
           IN /\ Report(b)
              /\ le' = [le EXCEPT !.texts = t1]
        /\ UNCHANGED <<sc, fs, fw, ws, cl>>

ClrErr == /\ Is("clrerr") /\ le' = [le EXCEPT !.code = 0, !.paths = {}, !.alt = {}, !.any = FALSE]
          /\ UNCHANGED <<sc, fs, fw, ws, cl, bad>>

(* ------------------------------ callbacks ------------------------------ *)
Ev ==
  /\ Is("ev")
  /\ LET key == <<E.fw, E.w>>
         t == <<E.d, E.n, E.a, E.o>>
         k == E.fw
     IN IF k \notin DOMAIN fw \/ ~fw[k].alive
        THEN Report({<<"afterdel", t>>}) /\ ws' = ws
        ELSE IF key \notin DOMAIN ws
        THEN Report({<<"route", <<"unknown id", E.w, t>>>>}) /\ ws' = ws
        ELSE LET W == ws[key]
                 flags == (IF E.ok = 1 /\ E.n # "" /\ (E.a = "V") = (E.o # "") THEN {} ELSE {<<"form", t>>}) \cup
                          (IF fw[k].started THEN {} ELSE {<<"early", t>>}) \cup
                          (IF E.l = W.lis THEN {} ELSE {<<"route", <<"listener", E.l, W.lis>>>>}) \cup
                          (IF E.fn = W.fn /\ (fw[k].isC => E.h = k) THEN {} ELSE {<<"cback", <<E.fn, E.h>>>>})
             IN IF ~W.live THEN Report({<<"afterremove", t>>}) /\ ws' = ws
                ELSE IF ~W.native
                THEN Report(flags) /\ ws' = [ws EXCEPT ![key].evs = Append(@, t)]
                ELSE LET r == Deliver(W, t)
                         other == \E x \in Live(k) : x # key /\ Wants(ws[x], t)
                         b == IF r.bad = "" THEN {}
                              ELSE IF other THEN {<<"route", t>>, <<r.bad, t>>}
                              ELSE {<<r.bad, t>>}
                     IN Report(flags \cup b) /\ ws' = [ws EXCEPT ![key] = r.w]
  /\ UNCHANGED <<sc, fs, fw, cl, le>>

Missed ==
  /\ Is("missed")
  /\ LET key == <<E.fw, E.w>> IN
     IF key \notin DOMAIN ws \/ ~ws[key].live
     THEN Report({<<IF key \in DOMAIN ws THEN "afterremove" ELSE "route", <<"missed", E.w>>>>}) /\ ws' = ws
     ELSE LET W == ws[key]
              isC == fw[E.fw].isC
          IN /\ Report((IF fw[E.fw].ovf THEN {} ELSE {<<"missedextra", E.w>>}) \cup
                       (IF E.ok = 1 /\ (W.off \/ W.rmv \/ E.d = W.path) THEN {} ELSE {<<"misseddir", E.d>>}) \cup
                       (IF isC THEN IF E.fn = W.ms /\ E.h = E.fw THEN {} ELSE {<<"cback", <<"missed", E.fn, E.h>>>>}
                        ELSE IF E.l = W.lis THEN {} ELSE {<<"route", <<"missed", E.l, W.lis>>>>}))
             /\ ws' = [ws EXCEPT ![key].mis = @ + 1]
  /\ UNCHANGED <<sc, fs, fw, cl, le>>

\* any part of it may have been dropped
Loosened(it) == it.m \cup it.o \cup
  UNION {{<<v[1], v[4], "D", "">>, <<v[1], v[2], "A", "">>, <<v[1], v[2], "M", "">>} : v \in {t \in it.m : t[3] = "V"}}
Overflow ==
  /\ Is("overflow")
  /\ fw' = [fw EXCEPT ![E.fw].ovf = TRUE, ![E.fw].lost = @ \/ \E x \in Live(E.fw) : ws[x].ren \/ ws[x].rmd]
  /\ ws' = [x \in DOMAIN ws |->
              IF x[1] = E.fw /\ ws[x].live /\ ws[x].native
              THEN [ws[x] EXCEPT !.lossy = TRUE, !.mirOn = FALSE,
                     \* directories renamed or deleted unnoticed: nothing certain can be said any more
                     !.off = @ \/ ws[x].ren \/ ws[x].rmd,
                     \* where they are may never get known
                     !.sure = {d \in @ : d \in DOMAIN ws[x].pth /\ ws[x].pth[d] = {PathOf(fs, d)}},
                     !.pend = [i \in DOMAIN @ |-> Item({}, Loosened(@[i]), FALSE)]]
              ELSE ws[x]]
  /\ UNCHANGED <<sc, fs, cl, le, bad>>

(* ------------------------------ idle ----------------------------------- *)
InoSet == {E.ino[i] : i \in 1..Len(E.ino)}

\* the mirror must have every regular file, directory and link to one, and nothing that isn't there
Plain(p) == LET i == Resolve(fs, p) IN i # -1 /\ fs.kind[i] \in {"f", "d"}
\* what can't be entered can't be listed
Enterable(p) == \A j \in 1..(Len(p) - 1) : /\ p[j] \notin RemoteNames
                                           /\ LET i == Resolve(fs, SubSeq(p, 1, j)) IN i = -1 \/ Readable(fs, i)
Differ(W) == LET L == Listing(fs, W.root, TRUE)
             IN <<{p \in W.mir \ L : Enterable(p)}, {p \in L \ W.mir : Plain(p) /\ Enterable(p)}>>

Settled ==
  /\ Is("settled")
  /\ LET k == E.fw
         F == fw[k]
         mine == Live(k)
     IN IF E.dead = 1
        THEN Report({<<"dead", k>>}) /\ UNCHANGED <<ws, fw>>
        ELSE IF E.run = 0 THEN UNCHANGED <<ws, bad, fw>>
        ELSE IF F.native
        THEN LET after == [x \in DOMAIN ws |-> IF x \in mine THEN [NatIdle(ws[x], fs, Cfg(k)) EXCEPT !.ren = FALSE, !.rmd = FALSE, !.rmv = FALSE, !.fp = {}] ELSE ws[x]]
                 anyOff == \E x \in mine : ws[x].off
                 need == UNION {after[x].sure : x \in mine}
                 may == UNION {after[x].seen : x \in mine}
                 lossy == \E x \in mine : ws[x].lossy \/ ws[x].loose \/ ws[x].hole # {}
                 b == UNION {Lost(ws[x]) : x \in mine} \cup
                      (IF anyOff THEN {}
                       ELSE (IF need \subseteq InoSet THEN {} ELSE {<<"uncovered", need \ InoSet>>}) \cup
                            (IF lossy \/ InoSet \subseteq may THEN {} ELSE {<<"leftover", InoSet \ may>>})) \cup
                      UNION {IF ws[x].mirOn /\ after[x].mirOn /\ ~ws[x].off
                                /\ Differ(ws[x]) # <<{}, {}>>
                             THEN {<<"mirror", Differ(ws[x])>>} ELSE {}
                             : x \in {y \in mine : ws[y].root = 0 \/ fs.par[ws[y].root] # -1}} \cup
                      UNION {IF ws[x].lossy /\ ws[x].mis = 0 /\ ~ws[x].ghost /\ (F.isC => ws[x].ms > 0)
                             THEN {<<"missed", x[2]>>} ELSE {} : x \in mine}
             IN Report(b) /\ ws' = after /\ fw' = [fw EXCEPT ![k].ovf = FALSE]
        ELSE LET s(x) == Snap(fs, ws[x], Cfg(k), {})
                 \* the directories changed while they were being polled: the next poll has to agree again
                 again == {x \in mine : ws[x].mid}
             IN /\ Report(UNION {IF ws[x].acc THEN PollAgrees(ws[x], ws[x].snap, s(x), ws[x].evs)
                                 ELSE PollCheck(ws[x], ws[x].snap, s(x), ws[x].evs) : x \in mine \ again})
                /\ ws' = [x \in DOMAIN ws |-> IF x \in again THEN [ws[x] EXCEPT !.mid = FALSE, !.acc = TRUE]
                                               ELSE IF x \in mine
                            THEN [ws[x] EXCEPT !.snap = s(x), !.evs = << >>, !.may = {}, !.fp = {}, !.lnk = FALSE, !.ren = FALSE, !.acc = FALSE] ELSE ws[x]]
                /\ fw' = fw
  /\ UNCHANGED <<sc, fs, cl, le>>

Crash == /\ l <= N /\ E.e \in {"crash", "hang", "thread2"} /\ l' = l + 1
         /\ Report({<<E.e, "">>})
         /\ UNCHANGED <<sc, fs, fw, ws, cl, le>>

End == Is("end") /\ UNCHANGED <<sc, fs, fw, ws, cl, le, bad>>

Next == Reset \/ Op \/ Faulted \/ Tree \/ New \/ Set \/ Call \/ RetAdd \/ RetRm \/ RetWatch \/ RetDel
        \/ Dirs \/ ErrQ \/ ClrErr \/ Ev \/ Missed \/ Overflow \/ Settled \/ Crash \/ End

Spec == Init /\ [][Next]_vars

Accepted == TLCGet("stats").diameter - 1 = N
=============================================================================
