---------------------------- MODULE NativeContract ----------------------------
(***************************************************************************)
(* What a watch of the native backend owes its listener.                   *)
(*                                                                         *)
(* A watch is a record W (see NewNative).  While the world changes, each   *)
(* change in a directory that the watch certainly covers (W.sure) appends  *)
(* an item to W.pend: the set of events that must be delivered for it      *)
(* (item.m, any order inside one item, items in order) and the events that *)
(* may be delivered around it (item.o).  Changes in directories whose      *)
(* registration is still under way only add to W.may.  Delivered events    *)
(* are matched by Deliver; whatever does not match is an anomaly.          *)
(* An event is a tuple <<directory path, name, action, old name>>.         *)
(***************************************************************************)
EXTENDS FsModel

IsPre(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

RemoteNames == {"remote", "remote1", "remote2"}
Readable(fs, i) == (fs.md[i] \div 256) % 2 = 1

\* directories reachable from root; stop: directories not to enter
RECURSIVE CovLoop(_, _, _, _, _, _)
CovLoop(fs, todo, done, follow, oos, stop) ==
  IF todo = {} THEN done
  ELSE LET x == CHOOSE y \in todo : TRUE
           px == PathOf(fs, x)
           \* (the watchers don't descend into what is on a remote file system)
           direct == IF \E j \in 1..Len(px) : px[j] \in RemoteNames THEN {}
                     ELSE {i \in SubDirs(fs, x) : fs.nm[i] \notin RemoteNames}
           links == IF ~follow THEN {}
                    ELSE {ResolveI(fs, fs.ents[x][n]) :
                            n \in {m \in DOMAIN fs.ents[x] : fs.kind[fs.ents[x][m]] = "l"}}
           via == {t \in links : t # -1 /\ fs.kind[t] = "d"
                                   /\ (oos \/ IsPre(px, PathOf(fs, t)))}
           next == {i \in direct \cup via : i \notin stop /\ Readable(fs, i)}
           new == next \ (done \cup todo)
       IN CovLoop(fs, (todo \ {x}) \cup new, done \cup {x}, follow, oos, stop)

Cov(fs, W, cfg, stop) ==
  IF W.root # 0 /\ fs.par[W.root] = -1 THEN {}
  ELSE IF ~W.rec THEN {W.root}
  ELSE CovLoop(fs, {W.root}, {}, cfg.follow, cfg.oos, stop \ {W.root})

Paths(fs, D) == [d \in D |-> {PathOf(fs, d)}]

NewNative(fs, fwi, id, root, path, rec, syn, lis, fn, ms, clash, cfg, wild) ==
  LET W0 == [fw |-> fwi, id |-> id, root |-> root, path |-> path, rec |-> rec, syn |-> syn,
             lis |-> lis, fn |-> fn, ms |-> ms, live |-> TRUE, native |-> TRUE, clash |-> clash,
             wild |-> wild, off |-> FALSE, hole |-> {}, lossy |-> FALSE, ghost |-> FALSE, mis |-> 0, ren |-> FALSE, rmd |-> FALSE, rmv |-> FALSE, loose |-> FALSE, lnk |-> FALSE, fp |-> {},
             mirOn |-> rec /\ syn /\ ~wild /\ clash = {} /\ ~cfg.follow, mir |-> {}, pend |-> << >>, may |-> {},
             sure |-> {}, seen |-> {}, pth |-> NoFun, mid |-> FALSE, acc |-> FALSE, evs |-> << >>, snap |-> NoFun]
      c == Cov(fs, W0, cfg, {})
      s == Cov(fs, W0, cfg, clash)
  IN [W0 EXCEPT !.sure = IF wild THEN {} ELSE s, !.seen = c, !.pth = Paths(fs, c),
                !.mir = IF W0.mirOn THEN Listing(fs, root, TRUE) ELSE {}]

(* ------------------------------ the world changes ---------------------- *)
\* to: where a moved entry arrived, if the last notification was that arrival
ItemTo(m, o, rn, to) == [m |-> m, o |-> o, rn |-> rn, to |-> to]
Item(m, o, rn) == ItemTo(m, o, rn, << >>)

\* identical consecutive content changes may be merged by the kernel
Append1(pend, it) ==
  IF /\ pend # << >>
     /\ it.m # {} /\ pend[Len(pend)].m = it.m
     /\ \A t \in it.m : t[3] = "M"
  THEN pend ELSE Append(pend, it)

AddPaths(pth, fs2, D) ==
  LET old(d) == IF d \in DOMAIN pth THEN pth[d] ELSE {}
  IN [d \in D |-> old(d) \cup {PathOf(fs2, d)}] @@ pth

AllActs(d, n) == {<<d, n, a, "">> : a \in {"A", "D", "M"}}

\* effect of operation o (fs -> fs2) on watch W
NatOp(W, fs, fs2, o, cfg) ==
  LET d == Lookup(fs, o.d)
      sureD == d \in W.sure
      seenD == d \in W.seen
      p == o.d
      push(it) == [W EXCEPT !.pend = Append1(@, it)]
      maybe(s) == [W EXCEPT !.may = @ \cup s]
      inTree2(x) == W.rec /\ x \in W.seen
  IN
  IF o.op \in {"mk", "mkr", "mkdir", "fifo", "sym", "ln"} THEN
    LET W1 == IF sureD THEN push(Item({<<p, o.n, "A", "">>},
                                      IF o.op = "mk" THEN {<<p, o.n, "M", "">>} ELSE {}, FALSE))
              ELSE IF seenD THEN maybe(AllActs(d, o.n)) ELSE W
        new == IF o.op = "mkdir" /\ W.rec /\ seenD THEN {o.i}
               ELSE IF o.op = "sym" /\ W.rec /\ seenD /\ cfg.follow
                    THEN Cov(fs2, W, cfg, {}) \ W.seen
               ELSE {}
    IN IF new = {} THEN W1
       ELSE [W1 EXCEPT !.seen = @ \cup new, !.pth = AddPaths(@, fs2, new),
                       !.may = IF o.op = "sym"
                               THEN @ \cup {<<x, n, "A", "">> : x \in new,
                                            n \in UNION {DOMAIN fs2.ents[y] : y \in new}}
                               ELSE @]
  ELSE IF o.op \in {"wr", "trunc"} THEN
    LET t == <<p, o.n, "M", "">> IN
    IF sureD THEN push(Item({t}, {t}, FALSE))
    ELSE IF seenD THEN maybe({<<d, o.n, "M", "">>}) ELSE W
  ELSE IF o.op \in {"touchw", "attr"} THEN
    LET t == <<p, o.n, "M", "">> IN
    IF sureD THEN push(Item({}, {t}, FALSE))
    ELSE IF seenD THEN maybe({<<d, o.n, "M", "">>}) ELSE W
  ELSE IF o.op \in {"rm", "rmdir"} THEN
    LET W1 == IF sureD THEN push(Item({<<p, o.n, "D", "">>}, {}, FALSE))
              ELSE IF seenD THEN maybe(AllActs(d, o.n)) ELSE W
    IN [W1 EXCEPT !.sure = @ \ {o.i}]
  ELSE IF o.op = "mv" THEN
    LET d2 == Lookup(fs, o.d2)
        q == o.d2
        sure2 == d2 \in W.sure
        seen2 == d2 \in W.seen
        isDir == fs.kind[o.i] = "d"
        T == IF isDir THEN DirsUnder(fs, o.i) ELSE {}
        \* the kernel merges two arrivals in a row at the same name
        merged == W.pend # << >> /\ W.pend[Len(W.pend)].to = <<d2, o.n2>>
        it == IF d = d2 THEN ItemTo({<<p, o.n2, "V", o.n>>}, {}, TRUE, <<d2, o.n2>>)
              ELSE IF sureD /\ sure2
                   THEN ItemTo({<<p, o.n, "D", "">>, <<q, o.n2, "A", "">>}, {<<q, o.n2, "M", "">>}, TRUE, <<d2, o.n2>>)
              ELSE IF sureD THEN Item({<<p, o.n, "D", "">>}, {}, TRUE)
              ELSE ItemTo(IF merged THEN {} ELSE {<<q, o.n2, "A", "">>},
                          (IF merged THEN {<<q, o.n2, "A", "">>} ELSE {}) \cup {<<q, o.n2, "M", "">>}, TRUE, <<d2, o.n2>>)
        mays == (IF seenD /\ ~sureD THEN AllActs(d, o.n) ELSE {}) \cup
                (IF seen2 /\ ~sure2 THEN AllActs(d2, o.n2) ELSE {}) \cup
                (IF seenD /\ d = d2 /\ ~sureD THEN {<<d, o.n2, "V", o.n>>} ELSE {})
        W1 == IF sureD \/ sure2 THEN push(it) ELSE W
        W2 == [W1 EXCEPT !.may = @ \cup mays, !.sure = @ \ {o.oi}]
    IN IF ~isDir THEN W2
       ELSE IF sureD /\ d = d2
            THEN [W2 EXCEPT !.pth = AddPaths(@, fs2, T \cap W.seen),
                            \* what was not covered (any more) is registered now
                            !.may = @ \cup (IF W.rec /\ W.syn
                                          THEN UNION {{<<x, n, "A", "">> : n \in DOMAIN fs2.ents[x]} : x \in T \ W.sure}
                                          ELSE {})]
       ELSE LET joins == W.rec /\ seen2
                T1 == T \cap W.seen
                gone == {<<fs.par[x], fs.nm[x], "D", "">> : x \in T1}
                synth == IF joins /\ W.syn
                         THEN UNION {{<<x, n, "A", "">> : n \in DOMAIN fs2.ents[x]} : x \in T}
                         ELSE {}
            IN [W2 EXCEPT !.sure = @ \ T,
                          !.seen = IF joins THEN @ \cup T ELSE @,
                          !.pth = AddPaths(@, fs2, IF joins THEN T ELSE T1),
                          !.may = @ \cup gone \cup synth]
  ELSE W

(* ------------------------------ events are delivered ------------------- *)
MirApply(mir, t) ==
  LET full == Append(t[1], t[2])
      gone(r) == {x \in mir : IsPre(r, x)}
  IN CASE t[3] = "A" -> mir \cup {full}
       [] t[3] = "D" -> mir \ gone(full)
       [] t[3] = "V" -> LET old == Append(t[1], t[4])
                        IN IF old \notin mir THEN mir \cup {full} ELSE
                           (mir \ (gone(full) \cup gone(old))) \cup
                           {full \o SubSeq(x, Len(old) + 1, Len(x)) : x \in gone(old)}
       [] OTHER -> mir

\* an obligation, under the path its directory had at the time; while a directory moved
\* across directories is being registered again, any of its paths will do
Same(W, t, m) ==
  \/ t = m
  \/ /\ t[2] = m[2] /\ t[3] = m[3] /\ t[4] = m[4]
     /\ \E d \in DOMAIN W.pth \ W.sure : t[1] \in W.pth[d] /\ m[1] \in W.pth[d]
Hits(W, t, S) == {m \in S : Same(W, t, m)}

RECURSIVE FirstMust(_, _)
FirstMust(pend, j) == IF j > Len(pend) \/ pend[j].m # {} THEN j ELSE FirstMust(pend, j + 1)

InMay(W, t) == \E m \in W.may :
                 /\ m[2] = t[2] /\ m[3] = t[3] /\ m[4] = t[4]
                 /\ m[1] \in DOMAIN W.pth /\ t[1] \in W.pth[m[1]]

Wants(W, t) == W.live /\ LET j == FirstMust(W.pend, 1) IN j <= Len(W.pend) /\ Hits(W, t, W.pend[j].m) # {}

\* returns [w |-> updated watch, bad |-> "" or anomaly class]
Deliver(W, t) ==
  LET j == FirstMust(W.pend, 1)
      n == Len(W.pend)
      Wm == [W EXCEPT !.mir = IF W.mirOn THEN MirApply(@, t) ELSE @]
      hit == IF j <= n THEN Hits(W, t, W.pend[j].m) ELSE {}
      opts == {i \in 1..(IF j > n THEN n ELSE j) : Hits(W, t, W.pend[i].o) # {}}
      later == {i \in (j + 1)..n : Hits(W, t, W.pend[i].m) # {}}
  IN IF W.wild \/ W.off THEN [w |-> Wm, bad |-> ""]
     ELSE IF hit # {}
     THEN LET m == CHOOSE x \in hit : t \in hit => x = t
              \* it could as well be the optional event of an earlier change
              amb == {i \in opts : i < j}
              keep == IF amb = {} THEN << >> ELSE SubSeq(W.pend, CHOOSE x \in amb : \A y \in amb : x <= y, j - 1)
          IN [w |-> [Wm EXCEPT !.pend = keep \o <<[@[j] EXCEPT !.m = @ \ {m},
                                                    !.o = IF t[3] = "M" THEN @ \cup {m} ELSE @]>>
                                      \o SubSeq(@, j + 1, n)], bad |-> ""]
     ELSE IF opts # {} \/ InMay(W, t) THEN [w |-> Wm, bad |-> ""]
     ELSE IF later # {}
     THEN LET i == CHOOSE x \in later : \A y \in later : x <= y
          IN [w |-> [Wm EXCEPT !.pend[i].m = @ \ Hits(W, t, @)], bad |-> "order"]
     ELSE IF W.loose THEN [w |-> Wm, bad |-> ""]
     ELSE [w |-> Wm, bad |-> IF t[3] = "V" THEN "phantomV" ELSE "phantom"]

(* ------------------------------ the watcher is idle -------------------- *)
Lost(W) == IF W.wild \/ W.off THEN {}
           ELSE UNION {{<<(IF W.pend[i].rn THEN "lostR" ELSE "lost"), t>> : t \in W.pend[i].m}
                         : i \in 1..Len(W.pend)}

\* next window; cov = directories the watch must cover from now on
NatIdle(W, fs, cfg) ==
  LET c == Cov(fs, W, cfg, {})
      s == Cov(fs, W, cfg, W.clash)
      stable == {x \in s \cap W.sure : x \in DOMAIN W.pth /\ W.pth[x] = {PathOf(fs, x)}}
      \* what was reached through a link stays watched when the link goes
      c2 == IF cfg.follow /\ W.rec THEN c \cup {d \in W.seen : fs.par[d] # -1 \/ d = 0} ELSE c
      hole == (IF W.lossy THEN s \ stable ELSE W.hole) \cup (c2 \ c)
      s2 == {x \in s : \A h \in hole : ~Under(fs, x, h)}
  IN [W EXCEPT !.sure = s2, !.seen = c2, !.pend = << >>, !.may = {},
               !.pth = [d \in c2 |-> {PathOf(fs, d)} \cup (IF d \notin s2 /\ d \in DOMAIN W.pth THEN W.pth[d] ELSE {})],
               !.hole = hole, !.loose = @ \/ c2 # c, !.mirOn = @ /\ ~W.lossy, !.lossy = FALSE, !.wild = FALSE, !.mis = 0,
               !.mir = @]
=============================================================================
