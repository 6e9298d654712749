-------------------------------- MODULE Tools -------------------------------
(* The command line tools. A world S has source folders (name -> entry),    *)
(* packages (name -> stored file) and destination folders. An entry of a     *)
(* source folder has a kind                                                  *)
(*   "file" a regular file       "ln"    a link to a regular file elsewhere  *)
(*   "dir"  an empty folder      "lndir" a link to a folder                  *)
(*   "shut" an unreadable file   "lnbad" a dangling link                     *)
(*   "shutdir" an unreadable folder with a file in it                        *)
(* and a content c. A package is [st, tab]: "none", "ok", "bad" (data lost), *)
(* "any" (left by a failed run). Runs of a tool either report completion     *)
(* ("done") or not ("fail"); "any" where the specification leaves it open.   *)
(* A run may be hindered: "tight" no file can grow beyond Limit bytes, "pkg" *)
(* the first package cannot be read, "dst" no new entry can be made in the   *)
(* destination (extract) or in the folder of the package (pack).             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

------------------------------------------------------------------------------
\* names of files: their parts, and the path they denote below a destination
RECURSIVE Parts(_, _, _)
Parts(n, i, cur) == IF i > Len(n) THEN <<cur>>
                    ELSE LET ch == SubSeq(n, i, i) IN
                         IF ch = "/" THEN <<cur>> \o Parts(n, i + 1, "") ELSE Parts(n, i + 1, cur \o ch)
Comps(n) == Parts(n, 1, "")
WellFormed(n) == \A i \in 1..Len(Comps(n)) : Comps(n)[i] \notin {"", ".", ".."}
\* [out |-> does it leave the folder at some point, p |-> the parts it comes to]
RECURSIVE Walk(_, _, _)
Walk(q, i, at) == IF i > Len(q) THEN [out |-> FALSE, p |-> at]
                  ELSE IF q[i] \in {"", "."} THEN Walk(q, i + 1, at)
                  ELSE IF q[i] = ".." THEN (IF at = <<>> THEN [out |-> TRUE, p |-> <<>>] ELSE Walk(q, i + 1, SubSeq(at, 1, Len(at) - 1)))
                  ELSE Walk(q, i + 1, Append(at, q[i]))
Where(n) == Walk(Comps(n), 1, <<>>)
\* a name that cannot be a file below the destination
Hostile(n) == Where(n).out \/ Where(n).p = <<>>
Below(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p      \* p is a folder on the way to q

------------------------------------------------------------------------------
\* pack: what a run over the folders fs (a sequence of names) of src may report
Kind(src, f, n) == src[f][n].kind
Of(src, f, K) == {n \in DOMAIN src[f] : src[f][n].kind \in K}
PackVerdict(src, fs) ==
  LET clash(K) == \E i, j \in 1..Len(fs) : i # j /\ Of(src, fs[i], K) \cap Of(src, fs[j], K) # {} IN
  IF \/ Len(fs) = 0
     \/ \E i \in 1..Len(fs) : fs[i] \notin DOMAIN src
     THEN "fail"
  ELSE IF clash({"file"}) \/ \E i \in 1..Len(fs) : Of(src, fs[i], {"shut", "shutdir"}) # {} THEN "fail"
  ELSE IF \E i \in 1..Len(fs) : Of(src, fs[i], {"ln", "lndir", "lnbad"}) # {} THEN "any"
  ELSE "done"
Limit == 4096
\* sum: bytes of the files that have to be packed
PackHindered(v, h, sum) == IF h = "" \/ v # "done" THEN v ELSE IF h = "dst" THEN "fail"
                           ELSE IF h = "tight" /\ sum > Limit THEN "fail" ELSE "any"
Must(src, fs) == UNION {Of(src, fs[i], {"file"}) : i \in 1..Len(fs)}
May(src, fs) == UNION {Of(src, fs[i], {"file", "ln"}) : i \in 1..Len(fs)}
\* the entry of the source that a packed file n comes from
SrcOf(src, fs, n) == LET I == {i \in 1..Len(fs) : n \in Of(src, fs[i], {"file", "ln"})} IN
                     {src[fs[i]][n] : i \in I}
Packed(src, fs) == [n \in Must(src, fs) |-> CHOOSE x \in SrcOf(src, fs, n) : TRUE]

------------------------------------------------------------------------------
\* extract: P a sequence of packages [st, tab], dst a tree (sequence of parts -> content or "dir"),
\* there: does the destination exist, md: may it be created
Paths(tab) == {Where(n).p : n \in {m \in DOMAIN tab : ~Hostile(m)}}
\* files of the packages in their order, later ones replacing earlier ones
RECURSIVE Over(_, _)
Over(P, dst) == IF P = <<>> THEN dst
                ELSE LET tab == Head(P).tab
                         Q == Paths(tab) IN
                     Over(Tail(P), [p \in DOMAIN dst \cup Q |->
                            IF p \in Q THEN tab[CHOOSE n \in DOMAIN tab : ~Hostile(n) /\ Where(n).p = p].c ELSE dst[p]])
FilesOf(dst) == {p \in DOMAIN dst : dst[p] # "dir"}
ExtractVerdict(P, dst, there, md) ==
  LET tabs == {P[i].tab : i \in 1..Len(P)}
      names == UNION {DOMAIN t : t \in tabs}
      paths == UNION {Paths(t) : t \in tabs} \cup FilesOf(dst) IN
  IF Len(P) = 0 \/ (~there /\ ~md) THEN "fail"
  ELSE IF \E i \in 1..Len(P) : P[i].st = "none" THEN "fail"
  ELSE IF \E i \in 1..Len(P) : P[i].st = "any" THEN "any"
  ELSE IF \E i \in 1..Len(P) : P[i].st = "bad" THEN "fail"
  ELSE IF \E n \in names : Hostile(n) THEN "fail"
  \* a file where a folder is needed, or the other way round
  ELSE IF \E p \in UNION {Paths(t) : t \in tabs} : (p \in DOMAIN dst /\ dst[p] = "dir") \/ \E q \in paths : Below(p, q) \/ Below(q, p) THEN "fail"
  ELSE IF \E n \in names : ~WellFormed(n) THEN "any"
  ELSE "done"
\* big: does a package hold a file beyond the limit
ExtractHindered(v, h, P, dst, there, big) ==
  IF h = "" \/ v # "done" THEN v
  ELSE IF h = "pkg" THEN "fail"
  ELSE IF h = "dst" /\ there /\ \E i \in 1..Len(P) : \E p \in Paths(P[i].tab) : SubSeq(p, 1, 1) \notin DOMAIN dst THEN "fail"
  ELSE IF h = "tight" /\ big THEN "fail"
  ELSE IF h = "tight" THEN "done" ELSE "any"
\* after the run: nothing lost, nothing foreign, everything there when it reports completion
TreeOK(P, dst, done, cut, after) ==
  \* cut: files may be left incomplete
  LET odd == \E i \in 1..Len(P) : \E n \in DOMAIN P[i].tab : ~WellFormed(n)     \* folders on odd ways are open
      Q == UNION {Paths(P[i].tab) : i \in 1..Len(P)}
      From(p) == {c \in UNION {{P[i].tab[n].c : n \in {m \in DOMAIN P[i].tab : ~Hostile(m) /\ Where(m).p = p}} : i \in 1..Len(P)} : TRUE}
      lossy == cut \/ \E i \in 1..Len(P) : P[i].st # "ok" IN
  /\ \A p \in DOMAIN dst : p \in DOMAIN after /\ (after[p] = dst[p] \/ (dst[p] # "dir" /\ p \in Q))
  /\ \A p \in DOMAIN after : p \in DOMAIN dst \/ p \in Q \/ (after[p] = "dir" /\ (odd \/ \E q \in Q : Below(p, q)))
  /\ \A p \in FilesOf(after) : (p \in DOMAIN dst /\ after[p] = dst[p]) \/ after[p] \in From(p) \/ (lossy /\ p \in Q)
  /\ done => LET w == Over(P, dst) IN \A p \in DOMAIN w : after[p] \in From(p) \cup {w[p]}
  /\ done /\ (\A i \in 1..Len(P) : \A n \in DOMAIN P[i].tab : WellFormed(n)) =>
        LET w == Over(P, dst) IN FilesOf(after) = FilesOf(w) /\ \A p \in FilesOf(w) : after[p] = w[p]
=============================================================================
