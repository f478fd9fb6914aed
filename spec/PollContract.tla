----------------------------- MODULE PollContract -----------------------------
(***************************************************************************)
(* What one poll of the polling backend must report: the difference of two *)
(* snapshots.  A snapshot maps the path of every covered directory to its  *)
(* entries, an entry being [k: "f" | "d", i: identity, a: signature].      *)
(* Where more than one report describes the same difference (a name reused *)
(* by another object) the events delivered select which one is meant; the  *)
(* rest must then fit exactly.                                             *)
(***************************************************************************)
EXTENDS NativeContract

View(fs, i) ==
  LET r == ResolveI(fs, i) IN
  IF r = -1 THEN [k |-> "x", i |-> i, a |-> ""]
  ELSE [k |-> IF fs.kind[r] \in {"f", "d"} THEN fs.kind[r] ELSE "x", i |-> r,
        a |-> IF fs.kind[r] = "d" THEN ToString(fs.md[r]) ELSE fs.at[r]]

ViewDir(fs, d) ==
  LET shown == {n \in DOMAIN fs.ents[d] : View(fs, fs.ents[d][n]).k # "x"}
  IN [n \in shown |-> View(fs, fs.ents[d][n])]

Snap(fs, W, cfg, stop) ==
  LET r == Resolve(fs, W.path) IN
  IF r = -1 \/ fs.kind[r] # "d" THEN NoFun
  ELSE LET c == Cov(fs, [W EXCEPT !.root = r], cfg, stop)
       IN [p \in {PathOf(fs, d) : d \in c} |-> ViewDir(fs, Lookup(fs, p))]

At(f, p) == IF p \in DOMAIN f THEN f[p] ELSE NoFun
None == [m |-> {}, o |-> {}, b |-> {}]
Join(a, b) == [m |-> a.m \cup b.m, o |-> a.o \cup b.o, b |-> a.b \cup b.b]
RECURSIVE JoinAll(_)
JoinAll(S) == IF S = {} THEN None
              ELSE LET x == CHOOSE y \in S : TRUE IN Join(x, JoinAll(S \ {x}))

RECURSIVE Fresh(_, _)
Fresh(new, p) ==
  LET e == At(new, p) IN
  Join([None EXCEPT !.m = {<<p, n, "A", "">> : n \in DOMAIN e}],
       JoinAll({Fresh(new, Append(p, n)) : n \in {x \in DOMAIN e : e[x].k = "d" /\ Append(p, x) \in DOMAIN new}}))

RECURSIVE Gone(_, _, _)
Gone(old, po, rp) ==
  LET e == At(old, po) IN
  Join([None EXCEPT !.m = {<<rp, n, "D", "">> : n \in DOMAIN e}],
       JoinAll({Gone(old, Append(po, n), Append(rp, n)) :
                  n \in {x \in DOMAIN e : e[x].k = "d" /\ Append(po, x) \in DOMAIN old}}))

\* T: the inodes something was done to since the previous poll (a directory's own time may have changed)
RECURSIVE Matched(_, _, _, _, _, _)
Matched(old, new, po, pn, E, T) ==
  LET o == At(old, po)
      w == At(new, pn)
      here == {t \in E : t[1] = pn}
      vs == {<<t[4], t[2]>> : t \in {x \in here : x[3] = "V"}}
      okv == {v \in vs : /\ v[1] \in DOMAIN o /\ v[2] \in DOMAIN w
                         /\ o[v[1]].i = w[v[2]].i /\ o[v[1]].k = w[v[2]].k
                         /\ ~(v[1] \in DOMAIN w /\ w[v[1]].i = o[v[1]].i)
                         /\ \A u \in vs : (u[1] = v[1]) <=> (u[2] = v[2])}
      badv == {<<"pmoved", <<pn, v[2], "V", v[1]>>>> : v \in vs \ okv}
      src == {v[1] : v \in okv}
      dst == {v[2] : v \in okv}
      van == DOMAIN o \ (DOMAIN w \cup src)        \* vanished and not moved
      app == DOMAIN w \ (DOMAIN o \cup dst)        \* appeared and not moved here
      missv == {<<"pmoved", <<pn, n, "V", m>>>> :
                  <<m, n>> \in {x \in van \X app : o[x[1]].i = w[x[2]].i /\ o[x[1]].k = w[x[2]].k}}
      re == (DOMAIN w \cap src) \ dst              \* old object moved away, name reused
      ov == (DOMAIN o \cap dst) \ src              \* overwritten by a move
      both == (DOMAIN o \cap DOMAIN w) \ (src \cup dst)
      isC(f, p, n) == f[p][n].k = "d" /\ Append(p, n) \in DOMAIN f
      swap(n) == <<pn, n, "D", "">> \in here \/ <<pn, n, "A", "">> \in here
      base == [m |-> {<<pn, n, "D", "">> : n \in van} \cup
                     {<<pn, n, "A", "">> : n \in app \cup re} \cup
                     {<<pn, v[2], "V", v[1]>> : v \in okv} \cup
                     {<<pn, n, "M", "">> : n \in {x \in both : ~swap(x) /\ o[x] # w[x] /\
                                                    (o[x].k = "f" \/ w[x].k = "f")}} \cup
                     UNION {{<<pn, n, "D", "">>, <<pn, n, "A", "">>} :
                              n \in {x \in both : swap(x) /\ (o[x].i # w[x].i \/ o[x].k # w[x].k)}},
               o |-> {<<pn, n, "M", "">> : n \in re \cup dst} \cup
                     {<<pn, n, "D", "">> : n \in ov} \cup
                     {<<pn, n, "M", "">> : n \in {x \in both : w[x].k = "d" /\
                        (o[x] # w[x] \/ w[x].i \in T)}},
               b |-> badv \cup missv]
      sub == {Gone(old, Append(po, n), Append(pn, n)) : n \in {x \in van \cup ov : isC(old, po, x)}} \cup
             {Fresh(new, Append(pn, n)) : n \in {x \in app \cup re : isC(new, pn, x)}} \cup
             {Matched(old, new, Append(po, v[1]), Append(pn, v[2]), E, T) :
                 v \in {x \in okv : isC(old, po, x[1]) /\ isC(new, pn, x[2])}} \cup
             UNION {LET a == isC(old, po, n)
                        c == isC(new, pn, n)
                        p1 == Append(po, n)
                        p2 == Append(pn, n)
                    IN IF a /\ c /\ ~(swap(n) /\ o[n].i # w[n].i) THEN {Matched(old, new, p1, p2, E, T)}
                       ELSE (IF a THEN {Gone(old, p1, p2)} ELSE {}) \cup
                            (IF c THEN {Fresh(new, p2)} ELSE {}) : n \in both}
  IN Join(base, JoinAll(sub))

Range(s) == {s[i] : i \in 1..Len(s)}
CountOf(s, t) == Cardinality({i \in 1..Len(s) : s[i] = t})

RECURSIVE Replay(_, _, _)
Replay(mir, evs, i) == IF i > Len(evs) THEN mir ELSE Replay(MirApply(mir, evs[i]), evs, i + 1)

ListingOf(snap) == UNION {{Append(p, n) : n \in DOMAIN snap[p]} : p \in DOMAIN snap}

\* directories entered through a link (their parent directory is not covered)
Linked(snap, rootp) == {p \in DOMAIN snap : p # rootp /\
                          ~(p # << >> /\ SubSeq(p, 1, Len(p) - 1) \in DOMAIN snap)}

\* all anomalies of one poll: a set of <<class, event>>
PollCheck(W, old, new, evs) ==
  LET E == Range(evs)
      lk == IF W.lnk \/ W.ren THEN {} ELSE Linked(old, W.path) \cap Linked(new, W.path)
      loose == (Linked(old, W.path) \cup Linked(new, W.path)) \ lk
      isLoose(p) == \E x \in loose : IsPre(x, p)
      x == JoinAll({Matched(old, new, W.path, W.path, E, W.may)} \cup
                   {Matched(old, new, p, p, E, W.may) : p \in lk})
      deep(t) == t[1] # W.path
      miss == {t \in x.m : t \notin E /\ ~isLoose(t[1])}
      extra == {t \in E : t \notin x.m \cup x.o /\ ~isLoose(t[1])}
      dup == {t \in x.m \cup x.o : CountOf(evs, t) > 1 /\ ~isLoose(t[1])}
      mirOK == loose # {} \/ Linked(new, W.path) # {} \/
               Replay(ListingOf(old), evs, 1) = ListingOf(new)
  IN IF W.off THEN {} ELSE x.b \cup
     {<<IF deep(t) THEN "plostS" ELSE "plost", t>> : t \in miss} \cup
     {<<IF t[3] = "V" THEN "pmoved" ELSE IF deep(t) THEN "pextraS" ELSE "pextra", t>> : t \in extra} \cup
     {<<IF t[3] = "V" THEN "pmoved" ELSE IF deep(t) THEN "pextraS" ELSE "pextra", t>> : t \in dup} \cup
     (IF mirOK THEN {} ELSE {<<"pmirror", <<W.path, "", "", "">>>>})

\* after a poll during which something changed only the names can be told
PollAgrees(W, old, new, evs) ==
  IF W.off \/ Linked(old, W.path) # {} \/ Linked(new, W.path) # {}
     \/ Replay(ListingOf(old), evs, 1) = ListingOf(new) THEN {} ELSE {<<"pmirror", <<W.path, "", "", "">>>>}
=============================================================================
