------------------------------ MODULE ConcTrace ------------------------------
(***************************************************************************)
(* Validation of concurrent executions.  The abstract object is a registry *)
(* of watches; every call takes effect atomically at some moment between   *)
(* its invocation and its return.  For each watcher object the set of all  *)
(* abstract states compatible with what was observed so far is kept: a     *)
(* return value, listing or callback that no member explains is an         *)
(* anomaly.  A watch may call back only while it is registered, or until   *)
(* the call that removed it returns.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES l, sc,
          ob,    \* watcher objects
          dirs,  \* directories that exist
          made,  \* files and directories created so far
          ren,   \* renames of directories: <<from, to>>
          off    \* nothing more can be said about this execution
vars == <<l, sc, ob, dirs, made, ren, off>>

E == Trace[l]
Is(e) == l <= N /\ E.e = e /\ l' = l + 1
Report(S) == IF S = {} THEN TRUE ELSE PrintT(ToJson([sc |-> sc, l |-> l, s |-> S]))

Pref(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* where a path is after the renames so far
Now(p) == IF \E r \in ren : Pref(r[1], p)
          THEN LET r == CHOOSE r \in ren : Pref(r[1], p) IN r[2] \o SubSeq(p, Len(r[1]) + 1, Len(p))
          ELSE p

Init == l = 1 /\ sc = "" /\ ob = << >> /\ dirs = {} /\ made = {} /\ ren = {} /\ off = FALSE

Reset == /\ Is("reset") /\ sc' = E.sc /\ ob' = << >> /\ dirs' = {} /\ made' = {} /\ ren' = {} /\ off' = FALSE

(* -------------------------- the abstract object ------------------------ *)
\* state: [reg: ids of registered watches,
\*         done: keys of pending calls that have taken effect,
\*         gone: <<key, id>> of what a pending call has removed]
\* call: [key, f, r (result), p, w]
\* watch: [p, l, rec, syn, fn, base: directories it is known to cover]
Paths(O, s) == {O.info[w].p : w \in s.reg}
Here(O, s, p) == {w \in s.reg : O.info[w].p = p}

Out(s, c, W) == [reg |-> s.reg \ W, done |-> s.done \cup {c.key}, gone |-> s.gone \cup {<<c.key, w>> : w \in W}]
Apply(O, s, c) ==  \* the states in which s can be after c took effect
  CASE c.f = "add" -> IF c.r > 0 THEN (IF Here(O, s, c.p) = {} THEN {[Out(s, c, {}) EXCEPT !.reg = @ \cup {c.r}]} ELSE {})
                      ELSE IF c.r = -2 THEN (IF Here(O, s, c.p) # {} THEN {Out(s, c, {})} ELSE {})
                      ELSE {}
    [] c.f = "rmid" -> {Out(s, c, s.reg \cap {c.w})}
    [] c.f = "rmpath" -> {Out(s, c, Here(O, s, c.p))}
    [] c.f = "dirs" -> IF {Now(p) : p \in Paths(O, s)} = {Now(p) : p \in c.D} THEN {Out(s, c, {})} ELSE {}
    [] OTHER -> {Out(s, c, {})}

RECURSIVE Close(_, _)
Close(O, S) ==
  LET T == S \cup UNION {UNION {Apply(O, s, c) : c \in {x \in O.pend : x.key \notin s.done /\ x.known}} : s \in S}
  IN IF T = S THEN S ELSE Close(O, T)

\* the matching return of the call invoked at line i, 0 if it never returns
RECURSIVE RetOf(_, _)
RetOf(i, key) == IF i > N \/ Trace[i].e \in {"fin", "reset"} THEN 0
                 ELSE IF Trace[i].e = "ret" /\ Trace[i].key = key THEN i ELSE RetOf(i + 1, key)

K == E.k
SetOf(s) == {s[i] : i \in 1..Len(s)}
Call_(j) == [key |-> E.key, f |-> E.f, known |-> (j # 0),
             r |-> IF E.f = "add" /\ j # 0 THEN Trace[j].res ELSE 0,
             p |-> IF E.f \in {"add", "rmpath"} THEN E.p ELSE << >>,
             w |-> IF E.f = "rmid" THEN E.w ELSE 0,
             D |-> IF E.f = "dirs" /\ j # 0 THEN SetOf(Trace[j].dl) ELSE {}]
Fresh == [kind |-> E.kind, native |-> (E.kind \in {"native", "capi"}), started |-> FALSE, dead |-> FALSE,
          info |-> << >>, st |-> {[reg |-> {}, done |-> {}, gone |-> {}]}, pend |-> {},
          need |-> {},   \* <<watch, path>>: entries that have to be announced
          seen |-> {},   \* <<watch, path>> announced
          calm |-> TRUE] \* no directory was renamed since the last idle moment

InvNew == /\ Is("inv") /\ E.f = "new"
          /\ ob' = (K :> Fresh) @@ ob /\ UNCHANGED <<sc, dirs, made, ren, off>>
Inv == /\ Is("inv") /\ E.f # "new"
       /\ LET O == ob[K]
              j == RetOf(l, E.key)
              c == Call_(j)
              isNew == c.f = "add" /\ c.r > 0
              O1 == [O EXCEPT !.pend = @ \cup {c},
                              !.started = @ \/ E.f = "watch",
                              \* (a watch that is being removed need not report anything more)
                              !.need = CASE E.f = "rmid" -> {x \in @ : x[1] # E.w}
                                         [] E.f = "rmpath" -> {x \in @ : Now(O.info[x[1]].p) # Now(E.p)}
                                         [] E.f = "del" -> {}
                                         [] OTHER -> @,
                              !.info = IF isNew /\ c.r \notin DOMAIN @
                                       THEN (c.r :> [p |-> E.p, l |-> E.l, rec |-> E.rec, syn |-> E.syn, fn |-> E.fn, base |-> dirs]) @@ @ ELSE @]
          IN /\ Report(IF isNew /\ c.r \in DOMAIN O.info THEN {<<"id", c.r>>} ELSE {})
             /\ off' = (off \/ (isNew /\ c.r \in DOMAIN O.info))
             /\ ob' = [ob EXCEPT ![K] = IF off' THEN O1 ELSE [O1 EXCEPT !.st = Close(O1, @)]]
       /\ UNCHANGED <<sc, dirs, made, ren>>
Ret == /\ Is("ret")
       /\ LET O == ob[K]
              S == {s \in Close(O, O.st) : E.key \in s.done}
              dup == E.f = "dirs" /\ Cardinality(SetOf(E.dl)) # Len(E.dl)
              \* after the last idle moment the names are the current ones
              old == E.f = "dirs" /\ O.calm /\ O.started /\ \E p \in SetOf(E.dl) : Now(p) # p
              \* (calls from callbacks while the object is being destroyed may be refused)
              dying == E.f # "del" /\ \E c \in O.pend : c.f = "del"
              bad == CASE E.f = "new" \/ off \/ dying -> {}
                       [] S = {} -> {<<"lin", [f |-> E.f, t |-> E.t, k |-> K, st |-> O.st]>>}
                       [] dup \/ old -> {<<"dirs", E.dl>>}
                       [] OTHER -> {}
          IN /\ Report(bad)
             /\ off' = (off \/ (E.f # "new" /\ S = {} /\ ~dying))
             /\ ob' = IF E.f = "new" \/ off' THEN ob
                      ELSE IF S = {} THEN [ob EXCEPT ![K] = [O EXCEPT !.pend = {c \in @ : c.key # E.key}]]
                      ELSE [ob EXCEPT ![K] = [O EXCEPT !.pend = {c \in @ : c.key # E.key}, !.dead = E.f = "del",
                              !.st = {[s EXCEPT !.done = @ \ {E.key}, !.gone = {g \in @ : g[1] # E.key}] : s \in S}]]
       /\ UNCHANGED <<sc, dirs, made, ren>>

(* ------------------------------ changes -------------------------------- *)
\* the watches that certainly are registered and that nobody is removing
Sure(O) == LET S == Close(O, O.st)
           IN {w \in DOMAIN O.info : (\A s \in S : w \in s.reg) /\ ~\E c \in O.pend : c.f \in {"del"} \/ ~c.known}
\* directories below another explicit root belong to that one, and later perhaps to nobody
Taken(O, w, d) == O.native /\ \E v \in DOMAIN O.info : v # w /\ O.info[v].p # O.info[w].p
                                 /\ Pref(O.info[w].p, O.info[v].p) /\ Pref(O.info[v].p, d)
Covers(O, w, d) == LET W == O.info[w]
                   IN Now(d) = Now(W.p) \/ (W.rec = 1 /\ Pref(Now(W.p), Now(d)) /\ d \in W.base /\ ~Taken(O, w, d))
Op == /\ Is("op")
      /\ made' = IF E.op \in {"mk", "mkdir"} THEN made \cup {E.p} ELSE made
      /\ dirs' = CASE E.op = "mkdir" -> dirs \cup {E.p}
                   [] E.op = "mv" -> {IF Pref(E.p, d) THEN E.to \o SubSeq(d, Len(E.p) + 1, Len(d)) ELSE d : d \in dirs}
                   [] OTHER -> dirs
      /\ ren' = IF E.op = "mv" THEN ren \cup {<<E.p, E.to>>} ELSE ren
      /\ ob' = [k \in DOMAIN ob |->
                  LET O == ob[k] IN
                  IF O.dead THEN O
                  ELSE IF E.op = "mv" THEN [O EXCEPT !.calm = FALSE]
                  ELSE [O EXCEPT !.need = @ \cup {<<w, E.p>> : w \in {v \in Sure(O) : Covers(O, v, E.d)}}]]
      /\ UNCHANGED <<sc, off>>

SeenNow(O) == {<<x[1], Now(x[2])>> : x \in O.seen}
(* ----------------------------- callbacks ------------------------------- *)
EvW == E.w
Legal(s) == EvW \in s.reg \/ \E g \in s.gone : g[2] = EvW
Ev ==
  /\ Is("ev")
  /\ LET k == E.h
         O == IF k \in DOMAIN ob THEN ob[k] ELSE << >>
         S == {s \in Close(O, O.st) : Legal(s)}
         W == O.info[EvW]
         p == Append(E.d, E.n)
         x == <<EvW, Now(p)>>
         under == Now(E.d) = Now(W.p) \/ (W.rec = 1 /\ Pref(Now(W.p), Now(E.d)))
         real == CASE E.a = "A" -> \E m \in made : Now(m) = Now(p)
                   [] E.a = "V" -> \E r \in ren : r[1] = Append(E.d, E.o) /\ r[2] = p
                   [] E.a = "D" -> \E r \in ren : r[1] = p
                   [] OTHER -> TRUE
         again == E.a = "A" /\ x \in SeenNow(O) /\ ~(O.native /\ W.syn = 1)
         bad == CASE k \notin DOMAIN ob -> {<<"afterdel", E>>}
                  [] off -> {}
                  [] O.dead -> {<<"afterdel", E>>}
                  [] ~O.started -> {<<"early", E>>}
                  [] EvW \notin DOMAIN O.info -> {<<"route", E>>}
                  [] S = {} -> {<<"afterremove", E>>}
                  [] E.l # W.l \/ E.fn # W.fn \/ ~under -> {<<"route", E>>}
                  [] ~real \/ again -> {<<"phantom", E>>}
                  [] OTHER -> {}
     IN /\ Report(bad)
        /\ off' = (off \/ bad # {})
        /\ ob' = IF off' THEN ob
                 ELSE [ob EXCEPT ![k] = [O EXCEPT !.seen = IF E.a = "A" THEN @ \cup {x} ELSE @, !.st = S]]
  /\ UNCHANGED <<sc, dirs, made, ren>>
Missed == Is("missed") /\ Report({<<"missedextra", E.w>>}) /\ UNCHANGED <<sc, ob, dirs, made, ren, off>>

(* ------------------------------- idle ---------------------------------- *)
NatObjs == {k \in DOMAIN ob : ob[k].native /\ ~ob[k].dead}
Want(O, s) == UNION {IF O.info[w].rec = 1 THEN {d \in dirs : Pref(Now(O.info[w].p), d)} ELSE {Now(O.info[w].p)} : w \in s.reg}
Amb(O) == {d \in dirs : \E w \in DOMAIN O.info : Taken(O, w, d)}
Idle == /\ Is("idle")
        /\ LET kw == SetOf(E.kw)
               lost == UNION {{<<"lost", y>> : y \in {x \in ob[k].need : <<x[1], Now(x[2])>> \notin SeenNow(ob[k])}}
                                : k \in {j \in DOMAIN ob : ob[j].started /\ ~ob[j].dead}}
               one == Cardinality(NatObjs) = 1 /\ \A k \in NatObjs : ob[k].started
               O == ob[CHOOSE k \in NatObjs : TRUE]
               fit(s) == Want(O, s) \ Amb(O) \subseteq kw /\ kw \subseteq Want(O, s) \cup Amb(O)
               S == {s \in O.st : fit(s)}
               died == Cardinality({k \in DOMAIN ob : ob[k].dead /\ ob[k].started})
               b == IF off THEN {}
                    ELSE lost \cup (IF one /\ S = {} THEN {<<"release", <<kw, {Want(O, s) : s \in O.st}>>>>} ELSE {})
                         \cup (IF E.unk # 0 THEN {<<"release", E.unk>>} ELSE {})
                         \cup (IF E.dead > died THEN {<<"dead", E.dead>>} ELSE {})
           IN /\ Report(b)
              /\ off' = (off \/ b # {})
              /\ ob' = [k \in DOMAIN ob |->
                          [ob[k] EXCEPT !.need = IF ob[k].started THEN {} ELSE @, !.calm = TRUE,
                              !.info = [w \in DOMAIN @ |-> [@[w] EXCEPT !.base = dirs \cup {r[1] : r \in ren}]],
                              !.st = IF ~off' /\ one /\ k \in NatObjs THEN S ELSE @]]
        /\ UNCHANGED <<sc, dirs, made, ren>>
End == /\ Is("end")
       /\ Report((IF E.thr # 0 THEN {<<"del", "thread">>} ELSE {}) \cup
                 (IF ~off /\ E.open # Cardinality(NatObjs) THEN {<<"del", "descriptor">>} ELSE {}))
       /\ UNCHANGED <<sc, ob, dirs, made, ren, off>>
Crash == /\ l <= N /\ E.e \in {"crash", "hang"} /\ l' = l + 1
         /\ Report({<<E.e, IF E.e = "hang" THEN E.why ELSE "">>})
         /\ UNCHANGED <<sc, ob, dirs, made, ren, off>>
Other == /\ l <= N /\ E.e \in {"start", "joined", "fin"} /\ l' = l + 1
         /\ UNCHANGED <<sc, ob, dirs, made, ren, off>>

Next == Reset \/ InvNew \/ Inv \/ Ret \/ Op \/ Ev \/ Missed \/ Idle \/ End \/ Crash \/ Other
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = N
=============================================================================
