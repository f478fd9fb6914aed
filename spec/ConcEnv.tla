------------------------------- MODULE ConcEnv -------------------------------
(***************************************************************************)
(* Concurrent clients of watcher objects.  A behaviour of this             *)
(* specification writes a program: what is set up, what each client thread *)
(* calls, what callbacks do, and how it ends.  The harness runs every      *)
(* program under many schedules.                                           *)
(*                                                                         *)
(* Lines: "s" set-up, "t1".."t3" client threads, "m" the main thread while *)
(* the clients run, "cb n" the n-th callback, "e" the end.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Confs,    \* set of configuration numbers
          Kinds,    \* kinds of watcher objects
          Threads,  \* number of client threads
          Ops,      \* operations in all
          OpKinds,
          Ends      \* how programs end: "full" | "del" | "pending" | "never"

VARIABLES cf, kind, prog, cnt, slot, nm, made, moved, own, done
vars == <<cf, kind, prog, cnt, slot, nm, made, moved, own, done>>

\* initial watches: <<slot, listener, path, rec, syn>>
Conf(c) ==
  CASE c = 1 -> [w |-> << >>, start |-> "s"]
    [] c = 2 -> [w |-> <<"0 0 A 1 0">>, start |-> "s"]
    [] c = 3 -> [w |-> <<"0 0 A 1 1", "1 1 O 0 0">>, start |-> "s"]
    [] c = 4 -> [w |-> <<"0 0 A 1 0">>, start |-> "m"]
    [] c = 5 -> [w |-> <<"0 0 A 1 0", "1 0 O 1 0">>, start |-> "no"]
    [] c = 6 -> [w |-> <<"0 0 A 1 0", "1 1 A/B 1 0", "2 2 A/B/C 1 0">>, start |-> "s"]  \* nested roots
    [] c = 7 -> [w |-> <<"0 0 A 0 0", "1 1 O 1 0", "2 0 P 1 0">>, start |-> "s"]
    [] c = 8 -> [w |-> << >>, start |-> "own"]  \* every thread has its own object
    [] c = 9 -> [w |-> <<"0 0 A 1 0", "1 1 O 1 0">>, start |-> "s"]
Dirs == {"A", "A/B", "A/B/C", "O", "O/E", "P"}
Roots == {"A", "O", "P"}
SetupDirs == <<"s mkdir A", "s mkdir A/B", "s mkdir A/B/C", "s mkdir O", "s mkdir O/E", "s mkdir P">>

IsC(k) == k \in {"capi", "capigen"}
Gen(k) == k \in {"generic", "capigen"}
Obj(t) == IF cf = 8 THEN ToString(t) ELSE "0"
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]

Init == \E c \in Confs, k \in Kinds :
          /\ (Gen(k) => c # 6)
          /\ cf = c /\ kind = k
          /\ prog = SetupDirs \o
                    (IF Conf(c).start = "own" THEN << >>
                     ELSE <<"s new 0 " \o k>> \o Map(Conf(c).w, LAMBDA w : "s add 0 " \o w) \o
                          (IF Conf(c).start = "s" THEN <<"s watch 0">> ELSE IF Conf(c).start = "m" THEN <<"m watch 0">> ELSE << >>))
          /\ cnt = 0 /\ slot = Len(Conf(c).w) /\ nm = 0 /\ made = {} /\ moved = FALSE /\ done = FALSE
          /\ own = [t \in 1..Threads |-> 0]  \* 0 no object yet, 1 has one, 2 deleted

Who == {"t" \o ToString(t) : t \in 1..Threads}
Thr(t) == "t" \o ToString(t) \o " "
Can(k) == k \in OpKinds /\ ~done /\ cnt < Ops
Put(line) == prog' = Append(prog, line) /\ cnt' = cnt + 1 /\ UNCHANGED <<cf, kind, done>>
Usable(t) == cf = 8 => own[t] = 1
Keep == UNCHANGED <<slot, nm, made, moved, own>>

Fn == IF IsC(kind) THEN {" 0", " 1"} ELSE {""}
AddTo(pre, t) == \E p \in IF cf = 6 THEN {"O", "P"} ELSE Roots, l \in {"0", "1"}, r \in {"0", "1"}, y \in {"0", "1"}, f \in Fn :
   /\ Put(pre \o "add " \o Obj(t) \o " " \o ToString(slot) \o " " \o l \o " " \o p \o " " \o r \o " " \o y \o f)
   /\ slot' = slot + 1 /\ UNCHANGED <<nm, made, moved, own>>
Add == Can("add") /\ \E t \in 1..Threads : Usable(t) /\ AddTo(Thr(t), t)
\* (the nested roots stay: removing one leaves its directories to nobody)
FirstOk == IF cf = 6 THEN 3 ELSE 0
RmId == Can("rmid") /\ \E t \in 1..Threads, s \in FirstOk..6 : Usable(t) /\ s < slot /\ Put(Thr(t) \o "rmid " \o Obj(t) \o " " \o ToString(s)) /\ Keep
RmPath == Can("rmpath") /\ \E t \in 1..Threads, p \in IF cf = 6 THEN {"O", "P"} ELSE Roots : Usable(t) /\ Put(Thr(t) \o "rmpath " \o Obj(t) \o " " \o p) /\ Keep
DirsQ == Can("dirs") /\ \E t \in 1..Threads : Usable(t) /\ Put(Thr(t) \o "dirs " \o Obj(t)) /\ Keep
Misc == Can("misc") /\ \E t \in 1..Threads, o \in {"err", "clrerr"} : Put(Thr(t) \o o) /\ Keep
Mk == Can("mk") /\ \E t \in 1..Threads, d \in Dirs \cup made :
        /\ moved => d \in Roots
        /\ Put(Thr(t) \o "mk " \o d \o "/x" \o ToString(nm)) /\ nm' = nm + 1 /\ UNCHANGED <<slot, made, moved, own>>
Mkdir == Can("mkdir") /\ ~moved /\ \E t \in 1..Threads, d \in Dirs :
        LET p == d \o "/d" \o ToString(nm)
        IN Put(Thr(t) \o "mkdir " \o p) /\ nm' = nm + 1 /\ made' = made \cup {p} /\ UNCHANGED <<slot, moved, own>>
\* one rename of a settled directory
Mv == Can("mv") /\ ~moved /\ made = {} /\ \E t \in 1..Threads, n \in {"K", "KKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKKK"} :
        Put(Thr(t) \o "mv A/B A/" \o n) /\ moved' = TRUE /\ UNCHANGED <<slot, nm, made, own>>
CbPre == {"cb " \o ToString(n) \o " " : n \in 1..3}
Cb == /\ Can("cb") /\ cf # 8
      /\ \E p \in CbPre :
           \/ AddTo(p, 0)
           \/ \E s \in FirstOk..6 : s < slot /\ Put(p \o "rmid 0 " \o ToString(s)) /\ Keep
           \/ \E q \in IF cf = 6 THEN {"O", "P"} ELSE Roots : Put(p \o "rmpath 0 " \o q) /\ Keep
           \/ Put(p \o "dirs 0") /\ Keep
           \/ \E d \in Roots : Put(p \o "mk " \o d \o "/x" \o ToString(nm)) /\ nm' = nm + 1 /\ UNCHANGED <<slot, made, moved, own>>
\* objects of their own
New == /\ cf = 8 /\ ~done /\ \E t \in 1..Threads : own[t] = 0
         /\ Put(Thr(t) \o "new " \o Obj(t) \o " " \o kind) /\ own' = [own EXCEPT ![t] = 1] /\ UNCHANGED <<slot, nm, made, moved>>
WatchOwn == Can("watch") /\ cf = 8 /\ \E t \in 1..Threads : own[t] = 1 /\ Put(Thr(t) \o "watch " \o Obj(t)) /\ Keep
DelOwn == /\ Can("del") /\ cf = 8 /\ \E t \in 1..Threads : own[t] = 1
              /\ Put(Thr(t) \o "del " \o Obj(t)) /\ own' = [own EXCEPT ![t] = 2] /\ UNCHANGED <<slot, nm, made, moved>>

RECURSIVE Seq_(_)
Seq_(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Seq_(S \ {x})
Probes == LET ds == Seq_((IF moved THEN Roots \cup {"O/E"} ELSE Dirs) \cup made)
          IN [i \in 1..Len(ds) |-> "e mk " \o ds[i] \o "/p" \o ToString(i)]
Objs == IF cf = 8 THEN {t \in 1..Threads : own[t] = 1} ELSE {0}
For(F(_)) == Map(Seq_(Objs), LAMBDA k : F(ToString(k)))
Full == For(LAMBDA k : "e dirs " \o k) \o <<"e quiesce">> \o Probes \o <<"e quiesce">> \o For(LAMBDA k : "e dirs " \o k)
        \o For(LAMBDA k : "e del " \o k)
Tail_(e) == CASE e = "full" -> Full
              [] e = "del" -> For(LAMBDA k : "e del " \o k) \o <<"e drop 0">>
              [] e = "pending" -> <<"e quiesce", "e mk A/p", "e mk O/p", "e mk A/q">> \o For(LAMBDA k : "e del " \o k) \o <<"e drop 0">>
Finish == /\ ~done /\ cnt >= Ops /\ done' = TRUE
          /\ \E e \in Ends : PrintT(ToJson(<<"@c" \o ToString(cf) \o "." \o kind \o "." \o e>> \o prog \o Tail_(e)))
          /\ UNCHANGED <<cf, kind, prog, cnt, slot, nm, made, moved, own>>

Next == Add \/ RmId \/ RmPath \/ DirsQ \/ Misc \/ Mk \/ Mkdir \/ Mv \/ Cb \/ New \/ WatchOwn \/ DelOwn \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
