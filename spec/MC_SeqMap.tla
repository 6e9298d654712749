----------------------------- MODULE MC_SeqMap ------------------------------
EXTENDS SeqMap, Json
CONSTANTS Ks, Vs, MaxOps
VARIABLES m, h, last
E0(op, k, v, n) == [op |-> op, k |-> k, v |-> v, n |-> n]
Ops == {E0(o, k, v, 0) : o \in {"poke", "push"}, k \in Ks, v \in Vs}
       \cup {E0(o, k, "", 0) : o \in {"has", "peek", "delete"}, k \in Ks}
       \cup {E0(o, "", "", 0) : o \in {"pop", "len", "init", "churn", "drain"}}
       \cup {E0("range", "", "", n) : n \in {1, 2, 99}}
Init == m = <<>> /\ h = <<>> /\ last = "none"
Next == \E e \in Ops : LET o == Do(m, e) IN m' = o.m /\ h' = Append(h, e) /\ last' = e.op
Bound == Len(h) <= MaxOps
Emit == PrintT("GEN " \o ToJson(h'))
View == <<m, last>>
InvUniq == Uniq(m)
\* order of the pairs that stay never changes, other values stay
ActOrder == [][LET e == h'[Len(h')] IN
   e.op \notin {"init", "drain"} =>
     /\ SelectSeq([i \in 1..Len(m') |-> m'[i].k], LAMBDA k : k \in Keys(m)) = SelectSeq([i \in 1..Len(m) |-> m[i].k], LAMBDA k : k \in Keys(m'))
     /\ \A i \in 1..Len(m), j \in 1..Len(m') : (m[i].k = m'[j].k /\ e.k # m[i].k) => m[i].v = m'[j].v
     /\ Len(m') <= Len(m) + 1 /\ Len(m) <= Len(m') + 1]_<<m, h, last>>
=============================================================================
