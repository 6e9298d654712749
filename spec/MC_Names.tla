------------------------------ MODULE MC_Names ------------------------------
EXTENDS Names, Json, Randomization
CONSTANTS Comps, OpSet, Subs, MaxTab, MaxPuts, MaxOps, MaxViews, Styles, Sim
VARIABLES L, V, nd, h, ro    \* ro: number of entries when last reopened, so that histories go on from there
\* arguments: relative names of one to three components
Rels0 == Comps \cup {a \o "/" \o b : a \in Comps, b \in Comps} \cup (IF Sim THEN {a \o "/" \o b \o "/" \o c : a \in Comps, b \in Comps, c \in Comps} ELSE {})
Dirs0 == Comps \cup {""} \cup {a \o "/" \o b : a \in Comps, b \in Comps}
\* random histories draw few arguments at each step, names in use among them
Few(X, n) == IF Sim THEN RandomSubset(IF Cardinality(X) < n THEN Cardinality(X) ELSE n, X) ELSE X
Used(w) == Names(Rel(L, w))
Rels(w) == IF Sim THEN Few(Rels0, 2) \cup Few(Used(w), 2) ELSE Rels0
DirArgs(w) == IF Sim THEN Few(Dirs0, 2) \cup Few(Dirs(Rel(L, w)) \ {"."}, 1) ELSE Dirs0
E0 == [op |-> "", ws |-> ".", a |-> "", b |-> "", skip |-> FALSE, t |-> "", st |-> 0]
OpsAt(w, O) == UNION {
   IF "put"    \in O THEN {[E0 EXCEPT !.op = "put", !.ws = w, !.a = a] : a \in Rels(w)} ELSE {},
   IF "del"    \in O THEN {[E0 EXCEPT !.op = "del", !.ws = w, !.a = a] : a \in Rels(w)} ELSE {},
   IF "tag"    \in O THEN {[E0 EXCEPT !.op = "tag", !.ws = w, !.a = a, !.t = "t1"] : a \in Rels(w)} ELSE {},
   {[E0 EXCEPT !.op = o, !.ws = w, !.a = a, !.b = b] : o \in {"rename", "alias"} \cap O, a \in Rels(w), b \in Rels(w)},
   IF "renamedir" \in O THEN {[E0 EXCEPT !.op = "renamedir", !.ws = w, !.a = a, !.b = b, !.skip = s] : a \in DirArgs(w), b \in DirArgs(w), s \in BOOLEAN} ELSE {},
   IF "reopen" \in O /\ w = "." THEN {[E0 EXCEPT !.op = "reopen"]} ELSE {},
   IF "sub"    \in O THEN {[E0 EXCEPT !.op = "sub", !.ws = w, !.a = a] : a \in Subs} ELSE {}}
Kinds == IF ~Sim THEN OpSet ELSE IF Len(h) < 4 THEN {"put"} ELSE Few(OpSet, 2)
Ops == UNION {OpsAt(w, Kinds) : w \in Few(V, 1)}
Do(e) == CASE e.op = "put" -> Put(L, e.ws, e.a, ToString(nd + 1), "t0")
           [] e.op = "del" -> Del(L, e.ws, e.a)
           [] e.op = "tag" -> Tag(L, e.ws, e.a, e.t)
           [] e.op = "rename" -> Rename(L, e.ws, e.a, e.b)
           [] e.op = "alias" -> Alias(L, e.ws, e.a, e.b)
           [] e.op = "renamedir" -> RenameDir(L, e.ws, e.a, e.b, e.skip)
           [] e.op = "reopen" -> Res(L, "", 0)
           [] e.op = "sub" -> Res(L, IF IsDir(Rel(L, e.ws), Slash(e.a)) THEN "" ELSE "notexist", 0)
Init == L = <<>> /\ V = {"."} /\ nd = 0 /\ h = <<>> /\ ro = 0
Next == /\ Len(h) < MaxOps
        /\ \E e \in Ops, st \in Few(Styles, 1) :
             /\ LET r == Do(e) IN
                /\ L' = r.L
                /\ V' = IF e.op = "reopen" THEN {"."} ELSE IF e.op = "sub" /\ r.err = "" THEN V \cup {Join(e.ws, Slash(e.a))} ELSE V
                /\ ro' = IF e.op = "reopen" THEN Len(L) ELSE ro
                /\ nd' = IF e.op = "put" /\ r.err = "" THEN nd + 1 ELSE nd
                /\ h' = Append(h, [e EXCEPT !.st = st])
Bound == Len(L) <= MaxTab /\ nd <= MaxPuts /\ Cardinality(V) <= MaxViews
Emit == IF Sim THEN (Len(h') = MaxOps => PrintT("GEN " \o ToJson([ops |-> h'])))
        ELSE PrintT("GEN " \o ToJson([ops |-> h']))
View == <<L, V, nd, ro>>

InvUnique == \A i, j \in 1..Len(L) : L[i].k = L[j].k => i = j
\* an operation through a view changes nothing outside its directory, and what it moves keeps data and tag
ActInside == [][ LET e == h'[Len(h')]
                     out(X) == {X[i] : i \in {j \in 1..Len(X) : ~HasPre(X[j].k, Pre(e.ws))}}
                 IN out(L) = out(L') ]_<<L, V, nd, h, ro>>
ActKeep == [][ LET e == h'[Len(h')]  dt(X) == {<<X[i].d, X[i].t>> : i \in 1..Len(X)} IN
                 /\ e.op \in {"rename", "renamedir"} => Len(L') = Len(L) /\ dt(L') = dt(L)
                 /\ e.op = "alias" => dt(L') = dt(L) /\ Len(L') \in {Len(L), Len(L) + 1}
                 /\ e.op = "del" => \A i \in 1..Len(L') : Has(L, L'[i].k) ]_<<L, V, nd, h, ro>>
\* the tree and the views agree
InvTree == ~Clash(L) =>
   /\ \A x \in Tree(L) : x.n = "." \/ (LET s == LastSlash(x.n) IN
        [n |-> Base(x.n), dir |-> x.dir] \in Kids(L, IF s = 0 THEN "." ELSE SubSeq(x.n, 1, s - 1)))
   /\ \A d \in Dirs(L) : Tree(Rel(L, d)) = {[x EXCEPT !.n = IF @ = d THEN "." ELSE After(@, Len(Pre(d)))]
                                            : x \in {y \in Tree(L) : y.n = d \/ HasPre(y.n, Pre(d))}}
=============================================================================
