------------------------------ MODULE MC_Union ------------------------------
(* Lists of packages with overlapping names, viewed at different directories. *)
EXTENDS Names, Json
CONSTANT MaxPk
VARIABLES pk, done
NameLists == {<<>>, <<"a", "d/a">>, <<"d/b", "a", "d/e/c">>, <<"da", "d/e/c", "d/a">>, <<"d/d/a", "d/b", "b">>, <<"d/e/a", "d/e/e/c", "d/d/b">>,
              <<"b/a", "d">>, <<"d/e", "b">>}   \* files with names that are directories elsewhere
Mk(ns) == [i \in 1..Len(ns) |-> [k |-> ns[i], d |-> ns[i], t |-> ""]]
Confs == {[names |-> ns, ws |-> w] : ns \in NameLists, w \in {".", "d", "d/e"}}
Fit == {c \in Confs : c.ws = "." \/ Rel(Mk(c.names), c.ws) # <<>>}
Lists == UNION {[1..n -> Fit] : n \in 1..MaxPk}
Parts == [i \in 1..Len(pk) |-> Rel(Mk(pk[i].names), pk[i].ws)]
U == Merge(Parts)
Subs == (Dirs(U) \ {"."}) \cup {"nope"}
Init == pk \in Lists /\ done = FALSE
RECURSIVE ToSeq(_)
ToSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o ToSeq(X \ {x})
Next == ~done /\ done' = TRUE /\ UNCHANGED pk
Emit == done' => PrintT("GEN " \o ToJson([pk |-> pk, subs |-> ToSeq(Subs)]))
\* the union is the same read as a whole or directory by directory, and the first holder wins
InvSub == \A d \in Dirs(U) : Rel(U, d) = Merge([i \in 1..Len(Parts) |-> Rel(Parts[i], d)])
InvFirst == \A k \in Names(U) : \E i \in 1..Len(Parts) : Has(Parts[i], k) /\ U[Pos(U, k)] = Parts[i][Pos(Parts[i], k)]
                                  /\ \A j \in 1..(i - 1) : ~Has(Parts[j], k)
InvAll == Names(U) = UNION {Names(Parts[i]) : i \in 1..Len(Parts)} /\ \A i, j \in 1..Len(U) : U[i].k = U[j].k => i = j
=============================================================================
