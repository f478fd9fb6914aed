------------------------------ MODULE FsModel ------------------------------
(***************************************************************************)
(* A POSIX-like file system, as far as a watcher can observe it.           *)
(*                                                                         *)
(* A file system is a record                                               *)
(*   kind : inode -> "d" | "f" | "l" | "p"   (dir, file, symlink, other)   *)
(*   ents : directory inode -> (name -> inode)                             *)
(*   par  : directory inode -> parent directory inode (-1: detached)       *)
(*   nm   : directory inode -> its name in the parent                      *)
(*   tgt  : symlink inode -> target, as a path from the root               *)
(*   at   : inode -> signature of size, mtime, mode and owner              *)
(*   md   : inode -> permission bits                                       *)
(* Inode 0 is the root (the scenario's scratch directory).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoFun == << >>      \* the function with empty domain

FsEmpty == [kind |-> (0 :> "d"), ents |-> (0 :> NoFun), par |-> (0 :> -1),
            nm |-> (0 :> ""), tgt |-> NoFun, at |-> (0 :> ""), md |-> (0 :> 493)]

IsDirI(fs, i) == i \in DOMAIN fs.kind /\ fs.kind[i] = "d"
Ents(fs, d) == IF d \in DOMAIN fs.ents THEN fs.ents[d] ELSE NoFun
Has(fs, d, n) == n \in DOMAIN Ents(fs, d)

RECURSIVE PathOf(_, _)
PathOf(fs, d) == IF d = 0 THEN << >>
                 ELSE IF fs.par[d] = -1 THEN <<"?">>
                 ELSE Append(PathOf(fs, fs.par[d]), fs.nm[d])

\* Lookup without following symbolic links; -1 when the path does not exist
RECURSIVE LookupFrom(_, _, _)
LookupFrom(fs, d, p) ==
  IF p = << >> THEN d
  ELSE IF ~IsDirI(fs, d) \/ ~Has(fs, d, Head(p)) THEN -1
  ELSE LookupFrom(fs, fs.ents[d][Head(p)], Tail(p))
Lookup(fs, p) == LookupFrom(fs, 0, p)

\* Lookup following symbolic links everywhere, at most fuel links
RECURSIVE ResolveFrom(_, _, _, _)
ResolveFrom(fs, d, p, fuel) ==
  IF d = -1 THEN -1
  ELSE IF fs.kind[d] = "l"
       THEN IF fuel = 0 THEN -1 ELSE ResolveFrom(fs, 0, fs.tgt[d] \o p, fuel - 1)
  ELSE IF p = << >> THEN d
  ELSE IF fs.kind[d] # "d" \/ ~Has(fs, d, Head(p)) THEN -1
  ELSE ResolveFrom(fs, fs.ents[d][Head(p)], Tail(p), fuel)
Resolve(fs, p) == ResolveFrom(fs, 0, p, 8)
ResolveI(fs, i) == ResolveFrom(fs, i, << >>, 8)

\* is directory i equal to or below directory r?
RECURSIVE Under(_, _, _)
Under(fs, i, r) == IF i = r THEN TRUE
                   ELSE IF i = 0 \/ i = -1 THEN FALSE
                   ELSE Under(fs, fs.par[i], r)

\* all directories at or below directory d (real tree edges only)
RECURSIVE DirsUnder(_, _)
DirsUnder(fs, d) ==
  {d} \cup UNION {DirsUnder(fs, fs.ents[d][n]) :
                    n \in {m \in DOMAIN fs.ents[d] : fs.kind[fs.ents[d][m]] = "d"}}

SubDirs(fs, d) == {fs.ents[d][n] : n \in {m \in DOMAIN fs.ents[d] : fs.kind[fs.ents[d][m]] = "d"}}

\* listing of the tree below d: set of full paths of all entries
Listing(fs, d, rec) ==
  UNION {LET p == PathOf(fs, x) IN {Append(p, n) : n \in DOMAIN fs.ents[x]} :
           x \in IF rec THEN DirsUnder(fs, d) ELSE {d}}

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* ------------------------------ mutations ------------------------------ *)
FsAdd(fs, d, n, i, k, at, md) ==
  [fs EXCEPT !.kind = (i :> k) @@ @,
             !.ents = LET e == [@ EXCEPT ![d] = (n :> i) @@ @]
                      IN IF k = "d" THEN (i :> NoFun) @@ e ELSE e,
             !.par = IF k = "d" THEN (i :> d) @@ @ ELSE @,
             !.nm = IF k = "d" THEN (i :> n) @@ @ ELSE @,
             !.at = (i :> at) @@ @,
             !.md = (i :> md) @@ @]

FsLink(fs, d, n, i) == [fs EXCEPT !.ents[d] = (n :> i) @@ @]

FsSym(fs, d, n, i, t) == [FsAdd(fs, d, n, i, "l", "", 511) EXCEPT !.tgt = (i :> t) @@ @]

FsAttr(fs, i, at, md) == [fs EXCEPT !.at = (i :> at) @@ @, !.md = (i :> md) @@ @]

FsRm(fs, d, n) ==
  LET i == fs.ents[d][n] IN
  [fs EXCEPT !.ents[d] = Without(@, n),
             !.par = IF i \in DOMAIN @ THEN [@ EXCEPT ![i] = -1] ELSE @]

FsMv(fs, d, n, d2, n2) ==
  LET i == fs.ents[d][n]
      oi == IF Has(fs, d2, n2) THEN fs.ents[d2][n2] ELSE -1
      e1 == [fs.ents EXCEPT ![d] = Without(@, n)]
      e2 == [e1 EXCEPT ![d2] = (n2 :> i) @@ Without(@, n2)]
  IN [fs EXCEPT !.ents = e2,
                !.par = LET p == IF oi \in DOMAIN @ THEN [@ EXCEPT ![oi] = -1] ELSE @
                        IN IF i \in DOMAIN p THEN [p EXCEPT ![i] = d2] ELSE p,
                !.nm = IF i \in DOMAIN @ THEN [@ EXCEPT ![i] = n2] ELSE @]

KindOfOp(op) == CASE op \in {"mk", "mkr"} -> "f" [] op = "mkdir" -> "d" [] op = "fifo" -> "p"

\* apply a recorded operation (see harness: opLog)
FsApply(fs, o) ==
  LET d == Lookup(fs, o.d) IN
  CASE o.op \in {"mk", "mkr", "mkdir"} -> FsAdd(fs, d, o.n, o.i, KindOfOp(o.op), o.at, o.md)
    [] o.op = "fifo" -> FsAdd(fs, d, o.n, o.i, "p", "", 420)
    [] o.op = "sym" -> FsSym(fs, d, o.n, o.i, o.t)
    [] o.op = "ln" -> FsLink(fs, d, o.n, o.i)
    [] o.op \in {"wr", "trunc", "touchw", "attr"} -> FsAttr(fs, fs.ents[d][o.n], o.at, o.md)
    [] o.op \in {"rm", "rmdir"} -> FsRm(fs, d, o.n)
    [] o.op = "mv" -> FsMv(fs, d, o.n, Lookup(fs, o.d2), o.n2)

\* does the recorded operation make sense in the model? (guards the binding itself)
FsAgrees(fs, o) ==
  LET d == Lookup(fs, o.d) IN
  /\ IsDirI(fs, d)
  /\ CASE o.op \in {"mk", "mkr", "mkdir", "fifo", "sym", "ln"} -> ~Has(fs, d, o.n)
       [] o.op \in {"wr", "trunc", "touchw", "attr"} -> Has(fs, d, o.n)
       [] o.op = "rm" -> Has(fs, d, o.n) /\ fs.kind[fs.ents[d][o.n]] # "d"
       [] o.op = "rmdir" -> Has(fs, d, o.n) /\ Ents(fs, fs.ents[d][o.n]) = NoFun
       [] o.op = "mv" -> /\ Has(fs, d, o.n) /\ fs.ents[d][o.n] = o.i
                         /\ IsDirI(fs, Lookup(fs, o.d2))
                         /\ IF Has(fs, Lookup(fs, o.d2), o.n2)
                            THEN fs.ents[Lookup(fs, o.d2)][o.n2] = o.oi ELSE o.oi = 0
=============================================================================
