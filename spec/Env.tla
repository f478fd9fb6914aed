--------------------------------- MODULE Env ---------------------------------
(***************************************************************************)
(* The environment of a watcher: everything that can happen to it between  *)
(* two idle moments.  Behaviours of this specification are printed as      *)
(* scenarios for the harness.  Conf selects initial trees and watches,     *)
(* Ops the number of operations, Win the maximal number per window.        *)
(***************************************************************************)
EXTENDS FsModel, Json

CONSTANTS Confs,    \* set of configuration numbers
          FNames, DNames,  \* names for files and directories
          MaxOps, MaxWin, MaxDepth, MaxDirs,
          OpKinds,  \* subset of operation names to use
          Batches   \* batch sizes for settle

VARIABLES fs, nx, hist, cnt, win, used, dren, done,
          cf,  \* the configuration
          na,  \* number of addWatch calls so far
          pre  \* when the next change happens: now, or at a later system call or callback
vars == <<fs, nx, hist, cnt, win, used, dren, done, cf, na, pre>>

Str(p) == LET RECURSIVE S(_)
              S(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o "/" \o S(Tail(q))
          IN S(p)
P(d, n) == Str(Append(PathOf(fs, d), n))

IsPref(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

(* --------------------------- configurations ---------------------------- *)
\* an initial tree: sequence of <<kind, path>>
Tree1 == << <<"d", <<"A">>>>, <<"d", <<"A", "B">>>>, <<"d", <<"A", "B", "C">>>>, <<"f", <<"A", "f">>>>,
            <<"f", <<"A", "B", "g">>>>, <<"d", <<"A", "D">>>>,
            <<"d", <<"O">>>>, <<"f", <<"O", "f">>>>, <<"d", <<"O", "E">>>>, <<"f", <<"O", "E", "g">>>>,
            <<"d", <<"O", "E", "F">>>> >>
Tree2 == << <<"d", <<"A">>>>, <<"d", <<"A", "B">>>>, <<"f", <<"A", "f">>>>, <<"d", <<"O">>>>, <<"f", <<"O", "g">>>> >>

Tree3 == << <<"d", <<"A">>>>, <<"f", <<"A", "f">>>>, <<"d", <<"A", "B">>>>, <<"f", <<"A", "B", "f">>>>,
            <<"d", <<"A", "B", "C">>>>, <<"f", <<"A", "B", "C", "f">>>>, <<"d", <<"O">>>> >>

\* links: a tree with two directories outside, and links made later
Tree4 == Tree3 \o << <<"d", <<"A", "B", "t">>>>, <<"f", <<"A", "B", "t", "f">>>>, <<"f", <<"O", "f">>>>, <<"d", <<"O", "E">>>>,
                    <<"f", <<"O", "E", "g">>>> >>

\* with a directory that claims to be on a network file system
Tree5 == Tree2 \o << <<"d", <<"A", "remote">>>>, <<"f", <<"A", "remote", "f">>>>, <<"d", <<"A", "B", "C">>>>,
                    <<"d", <<"O", "remote1">>>> >>

\* names that are prefixes of each other
Tree6 == << <<"d", <<"A">>>>, <<"f", <<"A", "f">>>>, <<"d", <<"A", "B">>>>, <<"f", <<"A", "B", "f">>>>, <<"d", <<"A", "BB">>>>,
            <<"d", <<"A", "BB", "a">>>>, <<"d", <<"AB">>>>, <<"f", <<"AB", "g">>>>, <<"d", <<"AB", "B">>>>, <<"f", <<"AB", "B", "f">>>> >>

Conf(c) ==
  CASE c = 1 -> [t |-> Tree1, s |-> <<"new 0 native", "add 0 0 A 1 1", "watch 0", "settle 0">>]
    [] c = 2 -> [t |-> Tree1, s |-> <<"new 0 native", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 3 -> [t |-> Tree1, s |-> <<"new 0 native", "add 0 0 A 0 1", "watch 0", "settle 0">>]
    [] c = 4 -> [t |-> Tree1, s |-> <<"new 0 native", "add 0 0 A 1 1", "add 0 1 O 1 1", "watch 0", "settle 0">>]
    [] c = 5 -> [t |-> Tree1, s |-> <<"new 0 native", "new 1 native", "add 0 0 A 1 1", "add 1 1 A 0 0",
                                      "add 1 0 O 1 0", "watch 0", "watch 1", "settleall">>]
    [] c = 6 -> [t |-> Tree1, s |-> <<"new 0 native", "add 0 0 A 1 0", "add 0 1 A/B 1 0", "watch 0", "settle 0">>]
    [] c = 7 -> [t |-> Tree1, s |-> <<"new 0 native", "add 0 1 A/B 1 0", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 8 -> [t |-> Tree1, s |-> <<"new 0 native", "add 0 0 A 1 0", "add 0 1 A/B 0 0", "watch 0", "settle 0">>]
    [] c = 9 -> [t |-> Tree2, s |-> <<"new 0 native", "add 0 0 A 1 1", "watch 0", "settle 0">>]
    [] c = 10 -> [t |-> Tree2, s |-> <<"new 0 native", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 11 -> [t |-> Tree1, s |-> <<"new 0 native", "watch 0", "add 0 0 A 1 1", "add 0 1 O 0 0", "settle 0">>]
    [] c = 12 -> [t |-> Tree1, s |-> <<"new 0 native", "add 0 2 A/B 1 1", "add 0 1 A/D 1 1", "add 0 0 O 0 0", "watch 0", "settle 0">>]
    [] c = 13 -> [t |-> Tree4, s |-> <<"new 0 native", "follow 0 1", "oos 0 1", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 14 -> [t |-> Tree4, s |-> <<"new 0 native", "follow 0 1", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 15 -> [t |-> Tree4, s |-> <<"new 0 native", "oos 0 1", "add 0 0 A 1 1", "watch 0", "settle 0">>]
    [] c = 16 -> [t |-> Tree4, s |-> <<"new 0 native", "watch 0">>]
    [] c = 17 -> [t |-> Tree1, s |-> <<"new 0 native", "add 0 0 A 1 0", "add 0 1 O 1 1", "add 0 2 A/B 0 0">>]
    [] c = 18 -> [t |-> Tree1, s |-> <<"new 0 native", "add 0 0 A 1 0", "add 0 1 O 1 1", "watch 0", "settle 0">>]
    [] c = 19 -> [t |-> Tree5, s |-> <<"new 0 native", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 20 -> [t |-> Tree5, s |-> <<"new 0 native", "watch 0">>]
    [] c = 34 -> [t |-> Tree5, s |-> <<"new 0 generic", "watch 0">>]
    \* run as an ordinary user, who may not read everything
    [] c = 71 -> [t |-> Tree1, s |-> <<"chmod A/B/C 300", "chmod O 300", "chmod O/E 355", "new 0 native", "watch 0">>]
    [] c = 72 -> [t |-> Tree1, s |-> <<"chmod A/D 300", "chmod O/E 300", "new 0 native", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 73 -> [t |-> Tree1, s |-> <<"chmod A/B/C 300", "chmod O 300", "chmod O/E 355", "new 0 generic", "watch 0">>]
    [] c = 36 -> [t |-> Tree6, s |-> <<"new 0 native", "follow 0 1", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 37 -> [t |-> Tree6, s |-> <<"new 0 generic", "follow 0 1", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 38 -> [t |-> Tree6, s |-> <<"new 0 native", "follow 0 1", "watch 0">>]
    [] c = 35 -> [t |-> Tree2, s |-> <<"new 0 native", "add 0 0 A 1 0", "add 0 1 A/B 1 0", "watch 0", "settle 0">>]
    [] c = 21 -> [t |-> Tree1, s |-> <<"new 0 generic", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 22 -> [t |-> Tree1, s |-> <<"new 0 generic", "add 0 0 A 0 0", "watch 0", "settle 0">>]
    [] c = 23 -> [t |-> Tree1, s |-> <<"new 0 generic", "add 0 0 A 1 0", "add 0 1 O 1 0", "watch 0", "settle 0">>]
    [] c = 24 -> [t |-> Tree3, s |-> <<"new 0 generic", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 26 -> [t |-> Tree4, s |-> <<"new 0 generic", "follow 0 1", "oos 0 1", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 27 -> [t |-> Tree4, s |-> <<"new 0 generic", "follow 0 1", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 28 -> [t |-> Tree4, s |-> <<"new 0 generic", "oos 0 1", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 29 -> [t |-> Tree4, s |-> <<"new 0 generic", "watch 0">>]
    [] c = 30 -> [t |-> Tree1, s |-> <<"new 0 generic", "add 0 0 A 1 0", "add 0 1 O 1 0">>]
    [] c = 31 -> [t |-> Tree1, s |-> <<"fault inotify_init 1 24", "new 0 native", "add 0 0 A 1 0", "watch 0", "settle 0">>]
    [] c = 32 -> [t |-> Tree4, s |-> <<"fault inotify_init 1 23", "new 0 native", "watch 0">>]
    [] c = 33 -> [t |-> Tree1, s |-> <<"fault inotify_init 1 24", "new 0 native", "add 0 0 A 1 1", "add 0 1 O 0 0">>]
    [] c = 61 -> [t |-> Tree1, s |-> <<"new 0 capi", "add 0 0 A 1 1 0 1", "add 0 1 O 1 0 0 2", "watch 0", "settle 0">>]
    [] c = 62 -> [t |-> Tree1, s |-> <<"new 0 capi", "watch 0">>]
    [] c = 63 -> [t |-> Tree1, s |-> <<"new 0 capigen", "add 0 0 A 1 0 0 1", "add 0 1 O 1 0 0 2", "watch 0", "settle 0">>]
    [] c = 64 -> [t |-> Tree1, s |-> <<"new 0 capi", "new 1 capi", "add 0 0 A 1 0 0 1", "add 1 0 A 1 0 0 1", "add 1 1 O 0 0 1 2",
                                       "watch 0", "watch 1", "settleall">>]
    [] c = 65 -> [t |-> Tree1, s |-> <<"new 0 capi", "add 0 0 A 1 0 0 0", "add 0 1 O 1 1 1 3">>]
    [] c = 66 -> [t |-> Tree1, s |-> <<"new 0 capigen", "watch 0">>]
    [] c = 25 -> [t |-> Tree3, s |-> <<"new 0 generic", "add 0 0 A 0 0", "add 0 1 O 1 0", "watch 0", "settle 0">>]

RECURSIVE Adds(_)
Adds(s) == IF s = << >> THEN 0 ELSE (IF IsPref("add 0", Head(s)) THEN 1 ELSE 0) + Adds(Tail(s))

RECURSIVE Build(_, _, _)
Build(f, t, i) ==
  IF i > Len(t) THEN f
  ELSE LET p == t[i][2]
       IN Build(FsAdd(f, Lookup(f, SubSeq(p, 1, Len(p) - 1)), p[Len(p)], i, t[i][1], "", 493), t, i + 1)
SetupLines(t) == [i \in 1..Len(t) |-> (IF t[i][1] = "d" THEN "mkdir " ELSE "mk ") \o Str(t[i][2])]

UsedNow(f) == {<<PathOf(f, d), d>> : d \in DirsUnder(f, 0)}

Init == \E c \in Confs :
          /\ fs = Build(FsEmpty, Conf(c).t, 1)
          /\ nx = Len(Conf(c).t) + 1
          /\ hist = <<"@c" \o ToString(c)>> \o SetupLines(Conf(c).t) \o Conf(c).s
          /\ cnt = 0 /\ win = 0 /\ dren = FALSE /\ done = FALSE
          /\ cf = c /\ na = Adds(Conf(c).s) /\ pre = ""
          /\ used = UsedNow(fs)

AllDirs == DirsUnder(fs, 0) \ {0}
Depth(d) == Len(PathOf(fs, d))
NDirs == Cardinality(AllDirs)

IsInj == pre # "" /\ IsPref("inj", pre)
IsCb == pre # "" /\ ~IsPref("inj", pre)
Can(k) == k \in OpKinds /\ ~done /\ cnt < MaxOps /\ win < MaxWin /\ (IsCb => k \in {"mkr", "mkdir"})

Step(line, f2, isRen) ==
  /\ fs' = f2
  /\ hist' = Append(hist, pre \o line) /\ pre' = ""
  /\ cnt' = cnt + 1 /\ win' = win + 1 /\ done' = FALSE /\ UNCHANGED <<cf, na>>
  /\ used' = used \cup UsedNow(f2)
  /\ dren' = (dren \/ isRen)
  \* no directory path is reused in a window with a directory rename
  /\ ~(dren' /\ \E a, b \in used' : a[1] = b[1] /\ a[2] # b[2])

Files(d) == {n \in DOMAIN fs.ents[d] : fs.kind[fs.ents[d][n]] = "f"}
Subs(d) == {n \in DOMAIN fs.ents[d] : fs.kind[fs.ents[d][n]] = "d"}

Mk == /\ Can("mk")
      /\ \E d \in AllDirs, n \in FNames : ~Has(fs, d, n)
           /\ Step("mk " \o P(d, n), FsAdd(fs, d, n, nx, "f", "", 420), FALSE) /\ nx' = nx + 1
Mkr == /\ Can("mkr")
       /\ \E d \in AllDirs, n \in FNames : ~Has(fs, d, n)
           /\ Step("mkr " \o P(d, n), FsAdd(fs, d, n, nx, "f", "", 420), FALSE) /\ nx' = nx + 1
Wr == /\ Can("wr")
      /\ \E d \in AllDirs : \E n \in Files(d) : Step("wr " \o P(d, n), fs, FALSE) /\ nx' = nx
Trunc == /\ Can("trunc")
      /\ \E d \in AllDirs : \E n \in Files(d) :
           Step("trunc " \o P(d, n) \o " " \o ToString(100 + cnt), fs, FALSE) /\ nx' = nx
Attr == /\ Can("attr")
        /\ \E d \in AllDirs : \E n \in Files(d) \cup Subs(d), m \in {"600", "644", "755"} :
             Step("chmod " \o P(d, n) \o " " \o m, fs, FALSE) /\ nx' = nx
Own == /\ Can("own")
       /\ \E d \in AllDirs : \E n \in Files(d) \cup Subs(d), m \in {"1000 -1", "-1 1000", "-1 0", "0 -1"} :
             Step("chown " \o P(d, n) \o " " \o m, fs, FALSE) /\ nx' = nx
Utime == /\ Can("utime")
        /\ \E d \in AllDirs : \E n \in Files(d) \cup Subs(d), m \in {"1000", "2000000000", "1001"} :
             Step("utime " \o P(d, n) \o " " \o m, fs, FALSE) /\ nx' = nx
Rm == /\ Can("rm")
      /\ \E d \in AllDirs : \E n \in Files(d) : Step("rm " \o P(d, n), FsRm(fs, d, n), FALSE) /\ nx' = nx
Ln == /\ Can("ln")
      /\ \E d \in AllDirs : \E n \in Files(d) : \E e \in AllDirs, m \in FNames : ~Has(fs, e, m)
           /\ Step("ln " \o P(d, n) \o " " \o P(e, m), FsLink(fs, e, m, fs.ents[d][n]), FALSE) /\ nx' = nx
Mkdir == /\ Can("mkdir") /\ NDirs < MaxDirs
         /\ \E d \in AllDirs, n \in DNames : ~Has(fs, d, n) /\ Depth(d) < MaxDepth
              /\ Step("mkdir " \o P(d, n), FsAdd(fs, d, n, nx, "d", "", 493), FALSE) /\ nx' = nx + 1
Rmdir == /\ Can("rmdir")
         /\ \E d \in AllDirs : \E n \in Subs(d) : fs.ents[fs.ents[d][n]] = NoFun
              /\ Step("rmdir " \o P(d, n), FsRm(fs, d, n), FALSE) /\ nx' = nx
\* rename of a file or directory, possibly over an existing file or empty directory
MvTo(dsts(_), K(_), ns) ==
  \E d \in AllDirs : \E n \in K(d) : \E e \in dsts(d), m \in ns :
     LET i == fs.ents[d][n]
         o == IF Has(fs, e, m) THEN fs.ents[e][m] ELSE -1
         isD == fs.kind[i] = "d"
     IN /\ o # i
        /\ o # -1 => (isD <=> fs.kind[o] = "d") /\ (isD => fs.ents[o] = NoFun)
        /\ isD => ~Under(fs, e, i)
        /\ Step("mv " \o P(d, n) \o " " \o P(e, m), FsMv(fs, d, n, e, m), isD)
        /\ nx' = nx
Same(d) == {d}
Other(d) == AllDirs \ {d}
RenF == Can("mv") /\ MvTo(Same, Files, FNames)
MvF == Can("mv") /\ MvTo(Other, Files, FNames)
RenD == (Can("mvd") \/ Can("rnd")) /\ MvTo(Same, Subs, DNames)
MvD == Can("mvd") /\ MvTo(Other, Subs, DNames)

Ctl(line) == pre = "" /\ hist' = Append(hist, line) /\ UNCHANGED <<fs, nx, cnt, done, cf, na, pre>>
Settle == /\ ~done /\ win > 0
          /\ \E b \in Batches : Ctl("settle 0 " \o ToString(b))
          /\ win' = 0 /\ used' = UsedNow(fs) /\ dren' = FALSE
Part == /\ "step" \in OpKinds /\ ~done /\ win > 0 /\ hist[Len(hist)] \notin {"step 0 1", "step 0 2"}
        /\ \E b \in {1, 2} : Ctl("step 0 " \o ToString(b))
        /\ UNCHANGED <<win, used, dren>>
(* ------------------------- the interface ------------------------------- *)
SetOfKind(k) == UNION {{<<d, n>> : n \in {m \in DOMAIN fs.ents[d] : fs.kind[fs.ents[d][m]] = k}} : d \in AllDirs}
PathOfE(x) == P(x[1], x[2])
DirPaths == {Str(PathOf(fs, d)) : d \in AllDirs}
FilePaths == {PathOfE(x) : x \in SetOfKind("f")}
LinkPaths == {PathOfE(x) : x \in SetOfKind("l")}
BadPaths == {"zz", "A/zz", "A/zz/y"}

Api(line, isAdd) == /\ hist' = Append(hist, pre \o line) /\ pre' = ""
                    /\ cnt' = cnt + 1 /\ na' = IF isAdd THEN na + 1 ELSE na
                    /\ UNCHANGED <<fs, nx, win, used, dren, done, cf>>
CanApi(k) == k \in OpKinds /\ ~done /\ cnt < MaxOps /\ ~IsInj /\ (IsCb => k \in {"add", "addl", "rmid", "rmpath", "dirs"})
Args == IF cf >= 60 /\ cf < 80 THEN {" 0 1", " 1 2", " 2 3", " 0 0", " 0 2", " 1 1"} ELSE {""}
AddLine(S, L, r, y, g) == \E p \in S, l \in L, rec \in r, syn \in y, a \in g :
                            Api("add 0 " \o l \o " " \o p \o " " \o rec \o " " \o syn \o a, TRUE)
AddW == CanApi("add") /\ na < 7 /\
        \/ AddLine(DirPaths, {"0", "1", "2"}, {"0", "1"}, {"0", "1"}, Args)
        \/ AddLine({p \o "/" : p \in DirPaths}, {"1"}, {"1"}, {"0"}, Args)
        \/ AddLine(FilePaths \cup BadPaths \cup LinkPaths, {"2"}, {"1"}, {"0"}, Args)
\* more of the links
AddL == CanApi("addl") /\ na < 7 /\ AddLine(LinkPaths \cup {p \o "/" : p \in LinkPaths}, {"0", "1", "2"}, {"0", "1"}, {"0"}, Args)
RmId == CanApi("rmid") /\ \E s \in 0..6 : s < na /\ Api("rmid 0 " \o ToString(s), FALSE)
RmRaw == CanApi("rmraw") /\ \E s \in {"-3", "0", "1", "2", "3", "4", "5", "6", "7", "99"} : Api("rmraw 0 " \o s, FALSE)
RmPath == CanApi("rmpath") /\ \E p \in DirPaths \cup {q \o "/" : q \in {"A", "A/B", "O"}} \cup BadPaths \cup LinkPaths :
             Api("rmpath 0 " \o p, FALSE)
Nth(k) == hist[Len(hist) + 1 - k]
DirsQ == CanApi("dirs") /\ Nth(1) # "dirs 0" /\ Api("dirs 0", FALSE)
ErrQ == CanApi("err") /\ Nth(1) \notin {"err", "clrerr", "clrerr c"} /\ \E e \in {"err", "clrerr", "clrerr c"} : Api(e, FALSE)
Watch == CanApi("watch") /\ Nth(1) # "watch 0" /\ Api("watch 0", FALSE)
Links == CanApi("links") /\ \E e \in {"follow 0 1", "oos 0 1", "follow 0 0", "oos 0 0"} : Api(e, FALSE)

Lnk(d, n, t) == Step("sym " \o Str(t) \o " " \o P(d, n), FsSym(fs, d, n, nx, t), FALSE) /\ nx' = nx + 1
Sym == /\ Can("sym")
       /\ \E d \in AllDirs, n \in {"l", "k"} : ~Has(fs, d, n)
           /\ \/ \E t \in AllDirs : Lnk(d, n, PathOf(fs, t))
              \/ Lnk(d, n, <<"A", "zz">>)
              \/ \E x \in SetOfKind("f") \cup SetOfKind("l") : Lnk(d, n, Append(PathOf(fs, x[1]), x[2]))
RmL == Can("rml") /\ \E x \in SetOfKind("l") : Step("rm " \o PathOfE(x), FsRm(fs, x[1], x[2]), FALSE) /\ nx' = nx
MvL == Can("mvl") /\ \E x \in SetOfKind("l"), d \in AllDirs, n \in {"l", "k"} :
         /\ ~Has(fs, d, n)
         /\ Step("mv " \o PathOfE(x) \o " " \o P(d, n), FsMv(fs, x[1], x[2], d, n), FALSE) /\ nx' = nx
Fifo == Can("fifo") /\ \E d \in AllDirs, n \in FNames : ~Has(fs, d, n)
           /\ Step("fifo " \o P(d, n), FsAdd(fs, d, n, nx, "p", "", 420), FALSE) /\ nx' = nx + 1

\* the n-th system call of the watcher from here on is preceded by the next change,
\* or the n-th callback makes it
Later(l) == pre' = l /\ UNCHANGED <<fs, nx, hist, cnt, win, used, dren, done, cf, na>>
Inj == /\ "inj" \in OpKinds /\ ~done /\ pre = "" /\ cnt < MaxOps /\ win < MaxWin
       /\ \E n \in {1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 22, 30} : Later("inj " \o ToString(n) \o " ")
Cb == /\ "cb" \in OpKinds /\ ~done /\ pre = "" /\ cnt < MaxOps
      /\ \E n \in 1..5 : Later("cb " \o ToString(n) \o " ")
Fault == /\ CanApi("fault")
         /\ \E n \in 1..4, f \in {<<"inotify_add_watch", "28">>, <<"inotify_add_watch", "13">>, <<"inotify_add_watch", "2">>,
                                  <<"select", "4">>, <<"read", "4">>, <<"read", "11">>, <<"select", "9">>, <<"opendir", "24">>,
                                  <<"stat", "2">>, <<"statfs", "5">>, <<"inotify_rm_watch", "22">>} :
              Api("fault " \o f[1] \o " " \o ToString(n) \o " " \o f[2], FALSE)
Overflow == /\ "overflow" \in OpKinds /\ ~done /\ win > 0
            /\ \E n \in 0..3 : Ctl("overflow 0 " \o ToString(n))
            /\ UNCHANGED <<win, used, dren>>
\* so many notifications that the queue of the kernel really overflows
Flood == /\ "flood" \in OpKinds /\ ~done /\ pre = "" /\ win > 0 /\ ~(\E i \in 1..Len(hist) : hist[i] = "ovfcheck 0")
         /\ \E p \in DirPaths : hist' = hist \o <<"flood " \o p \o " 6000", "ovfcheck 0">>
         /\ UNCHANGED <<fs, nx, cnt, win, used, dren, done, cf, na, pre>>
Tail1 == <<"settleall", "probe", "settleall", "dirs 0">> \o (IF cf \in 70..79 THEN << >> ELSE <<"tree">>)
Finish == /\ ~done /\ cnt >= MaxOps
          /\ done' = TRUE
          /\ PrintT(ToJson(hist \o Tail1))
          /\ UNCHANGED <<fs, nx, hist, cnt, win, used, dren, cf, na, pre>>

Next == Mk \/ Mkr \/ Wr \/ Trunc \/ Attr \/ Own \/ Utime \/ Rm \/ Ln \/ Mkdir \/ Rmdir \/ RenF \/ MvF \/ RenD \/ MvD
        \/ Settle \/ Part \/ Finish
        \/ Sym \/ RmL \/ MvL \/ Fifo \/ AddW \/ AddL \/ RmId \/ RmRaw \/ RmPath \/ DirsQ \/ ErrQ \/ Watch \/ Links
        \/ Inj \/ Cb \/ Fault \/ Overflow \/ Flood

Spec == Init /\ [][Next]_vars

\* exhaustive modes: one scenario per transition of the bounded graph into a state with MaxOps
\* changes (with the view: one history per distinct state; without: every history)
View == <<fs, cnt, win, used, dren, cf, na, pre>>
Emit == (cnt' = MaxOps /\ cnt < MaxOps) => PrintT(ToJson(hist' \o Tail1))
=============================================================================
