------------------------------ MODULE MC_Tools ------------------------------
(* Histories of edits of the source folders and runs of the tools.           *)
EXTENDS Tools, Json, Randomization
CONSTANTS Folders, Names, Kinds, Contents, Hostiles, Pkgs, OpSet, LastOps, MaxOps, Sim, Warm
VARIABLES S, h, last

E0 == [op |-> "", f |-> "", n |-> "", k |-> "", c |-> "", t |-> 0, fs |-> <<>>, p |-> "", ps |-> <<>>, o |-> [mime |-> FALSE, link |-> FALSE, log |-> FALSE, split |-> FALSE],
       d |-> "", mode |-> "", ft |-> FALSE, md |-> FALSE, ns |-> <<>>, how |-> "", hinder |-> ""]
None == [st |-> "none", tab |-> <<>>]
Start == [src |-> [f \in Folders |-> <<>>], pk |-> [p \in Pkgs |-> None], dst |-> <<>>, there |-> FALSE]
Few(X, k) == IF ~Sim \/ Len(h) > 1000 \/ Cardinality(X) <= k THEN X ELSE RandomSubset(k, X)
\* a parameter that matters little to the model: any in simulation, else left to the harness
Pick(X) == IF Sim THEN Few(X, 1) ELSE {CHOOSE x \in X : TRUE}
\* hindrances come in some random histories only
Hinder(X) == IF Sim /\ RandomElement(1..4) = 1 THEN RandomSubset(1, X) ELSE {""}
Seqs(X, lo, hi) == UNION {[1..i -> X] : i \in lo..hi}
On(o) == o \in OpSet
\* a name may not be a file and a folder of one source folder at once
Free(st, f, n) == \A m \in DOMAIN st.src[f] : m # n => ~Below(Comps(m), Comps(n)) /\ ~Below(Comps(n), Comps(m))
Ops(st) == UNION {
  IF On("put") THEN {[E0 EXCEPT !.op = "put", !.f = f, !.n = n, !.k = k, !.c = c, !.t = t] :
                     f \in Folders, n \in Few(Names, 2), k \in Few(Kinds, 2), c \in Few(Contents, 2), t \in Pick(0..7)} ELSE {},
  IF On("del") THEN {[E0 EXCEPT !.op = "del", !.f = f, !.n = n] : f \in Folders, n \in Few(Names, 2)} ELSE {},
  IF On("pack") THEN {[E0 EXCEPT !.op = "pack", !.fs = fs, !.p = p, !.o = o, !.how = w, !.hinder = IF w = "tool" THEN y ELSE ""] :
       fs \in Few(Seqs(Folders, 1, 2) \cup {<<"nofolder">>, <<>>}, 3), p \in Pkgs, w \in Few({"tool", "tool", "api", "lua"} \cap OpSet, 2),
       o \in Pick([mime : BOOLEAN, link : BOOLEAN, log : BOOLEAN, split : BOOLEAN]), y \in Hinder({"dst", "tight"})} ELSE {},
  \* a package whose file lies in a source folder
  IF On("inside") THEN {[E0 EXCEPT !.op = "inside", !.fs = <<f>>, !.f = f, !.o = o] : f \in Folders,
       o \in Pick([mime : BOOLEAN, link : {FALSE}, log : {FALSE}, split : BOOLEAN])} ELSE {},
  \* a package made by a program: any names
  IF On("make") THEN {[E0 EXCEPT !.op = "make", !.p = p, !.ns = ns, !.t = t, !.o = o] : p \in Pkgs, ns \in Few(Seqs(Hostiles, 0, 2), 3), t \in Pick(0..7),
       o \in Pick([mime : {FALSE}, link : {FALSE}, log : BOOLEAN, split : BOOLEAN])} ELSE {},
  IF On("cut") THEN {[E0 EXCEPT !.op = "cut", !.p = p] : p \in {x \in Pkgs : st.pk[x].st = "ok" /\ st.pk[x].tab # <<>>}} ELSE {},
  IF On("extract") THEN {[E0 EXCEPT !.op = "extract", !.ps = ps, !.mode = m, !.ft = ft, !.md = md, !.hinder = y] :
       ps \in Few(Seqs(Pkgs, 1, 2) \cup {<<>>}, 3), m \in Pick({"bulk", "mmap", "fsys"}), ft \in Pick(BOOLEAN), md \in Few(BOOLEAN, 1), y \in Hinder({"dst", "tight", "pkg"})} ELSE {},
  IF On("plant") THEN {[E0 EXCEPT !.op = "plant", !.n = n, !.k = k] : n \in Few(Names, 1), k \in {"file", "dir"}} ELSE {},
  IF On("clean") THEN {[E0 EXCEPT !.op = "clean"]} ELSE {}}

Ent(e) == [kind |-> e.k, c |-> e.c]
\* the ideal tools: they do what is asked or nothing
Eff(st, e) ==
  CASE e.op = "put" -> IF Free(st, e.f, e.n) THEN [st EXCEPT !.src[e.f] = (e.n :> Ent(e)) @@ @] ELSE st
    [] e.op = "del" -> [st EXCEPT !.src[e.f] = [n \in DOMAIN @ \ {e.n} |-> @[n]]]
    [] e.op = "pack" -> LET v == PackHindered(PackVerdict(st.src, e.fs), e.hinder, 0) IN
         [st EXCEPT !.pk[e.p] = IF v = "done" THEN [st |-> "ok", tab |-> Packed(st.src, e.fs)] ELSE [st |-> "any", tab |-> <<>>]]
    [] e.op = "make" -> [st EXCEPT !.pk[e.p] = [st |-> "ok", tab |-> [n \in {e.ns[i] : i \in 1..Len(e.ns)} |-> [kind |-> "file", c |-> "made" \o n]]]]
    [] e.op = "cut" -> [st EXCEPT !.pk[e.p].st = "bad"]
    [] e.op = "extract" ->
         LET P == [i \in 1..Len(e.ps) |-> st.pk[e.ps[i]]]
             v == ExtractHindered(ExtractVerdict(P, st.dst, st.there, e.md), e.hinder, P, st.dst, st.there, FALSE) IN
         IF v = "done" THEN [st EXCEPT !.dst = Over(P, @), !.there = TRUE] ELSE [st EXCEPT !.there = @ \/ e.md]
    [] e.op = "plant" -> IF st.there /\ Comps(e.n) \notin DOMAIN st.dst /\ \A q \in FilesOf(st.dst) : ~Below(Comps(e.n), q) /\ ~Below(q, Comps(e.n))
                         THEN [st EXCEPT !.dst = (Comps(e.n) :> (IF e.k = "dir" THEN "dir" ELSE "planted")) @@ @] ELSE st
    [] e.op = "clean" -> [st EXCEPT !.dst = <<>>, !.there = FALSE]
    [] OTHER -> st
RECURSIVE RunAll(_, _)
RunAll(st, q) == IF q = <<>> THEN st ELSE RunAll(Eff(st, Head(q)), Tail(q))
Put(f, n, k, c, t) == [E0 EXCEPT !.op = "put", !.f = f, !.n = n, !.k = k, !.c = c, !.t = t]
Prefix == <<Put("f1", "a.txt", "file", "c1", 1), Put("f1", "d/c.png", "file", "c2", 2), Put("f2", "b", "file", "c3", 3)>>
Init == /\ h = (IF Warm THEN Prefix ELSE <<>>) /\ S = RunAll(Start, IF Warm THEN Prefix ELSE <<>>) /\ last = "none"
Some(X) == IF Sim THEN UNION {LET K == {x \in X : x.op = o} IN IF K = {} THEN {} ELSE RandomSubset(1, K) : o \in OpSet} ELSE X
Next == /\ Len(h) < MaxOps
        /\ \E e \in Some({x \in Ops(S) : Len(h) < MaxOps - 1 \/ x.op \in LastOps}) :
             /\ S' = Eff(S, e) /\ h' = Append(h, e)
             /\ last' = IF e.op = "extract" THEN ExtractVerdict([i \in 1..Len(e.ps) |-> S.pk[e.ps[i]]], S.dst, S.there, e.md) ELSE "none"
Emit == (IF Sim THEN Len(h') = MaxOps ELSE h'[Len(h')].op \in LastOps) => PrintT("GEN " \o ToJson([ops |-> h', vary |-> ~Sim]))
View == <<S, last>>

\* no folder is a file, and every path lies below the destination
InvTree == \A p, q \in DOMAIN S.dst : p # <<>> /\ (Below(p, q) => S.dst[p] = "dir")
InvWhere == \A n \in Hostiles : Hostile(n) \/ (Where(n).p # <<>> /\ \A i \in 1..Len(Where(n).p) : Where(n).p[i] \notin {"", ".", ".."})
\* packing folders and extracting the package into a new folder gives the files of the folders back
InvBack == LET e == h[Len(h)]  g == h[Len(h) - 1] IN
  (Len(h) > 1 /\ e.op = "extract" /\ last = "done" /\ g.op = "pack" /\ e.ps = <<g.p>> /\ \A i \in 1..(Len(h) - 2) : h[i].op \notin {"extract", "plant"}) =>
     /\ FilesOf(S.dst) = {Comps(n) : n \in Must(S.src, g.fs)}
     /\ \A i \in 1..Len(g.fs) : \A n \in Of(S.src, g.fs[i], {"file"}) : S.dst[Comps(n)] = S.src[g.fs[i]][n].c
\* a run changes the destination only to what its packages hold
ActTree == [][LET e == h'[Len(h')] IN e.op = "extract" =>
     TreeOK([i \in 1..Len(e.ps) |-> S.pk[e.ps[i]]], S.dst, last' = "done", e.hinder # "", [p \in FilesOf(S'.dst) \cup DOMAIN S.dst |-> S'.dst[p]])]_<<S, h, last>>
=============================================================================
