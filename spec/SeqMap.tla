------------------------------- MODULE SeqMap -------------------------------
(* The ordered map: a sequence of (key, value) pairs with unique keys in the *)
(* order of their first placing. Do gives the new map and the result of one  *)
(* operation; the concurrent map must look as if operations took effect one  *)
(* at a time (Begin, Effects, Return: see Conc).                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Keys(m) == {m[i].k : i \in 1..Len(m)}
At(m, k) == CHOOSE i \in 1..Len(m) : m[i].k = k
Uniq(m) == Cardinality(Keys(m)) = Len(m)
Out(m, ok, k, v, n, seq) == [m |-> m, r |-> [ok |-> ok, k |-> k, v |-> v, n |-> n, seq |-> seq]]
Put(m, k, v) == IF k \in Keys(m) THEN [m EXCEPT ![At(m, k)].v = v] ELSE Append(m, [k |-> k, v |-> v])
Del(m, k) == SelectSeq(m, LAMBDA p : p.k # k)
\* absent keys and values show as ""
Do(m, e) ==
  CASE e.op = "init"   -> Out(<<>>, TRUE, "", "", 0, <<>>)
    [] e.op = "len"    -> Out(m, TRUE, "", "", Len(m), <<>>)
    [] e.op = "has"    -> Out(m, e.k \in Keys(m), "", "", 0, <<>>)
    [] e.op = "peek"   -> IF e.k \in Keys(m) THEN Out(m, TRUE, "", m[At(m, e.k)].v, 0, <<>>) ELSE Out(m, FALSE, "", "", 0, <<>>)
    [] e.op = "poke"   -> Out(Put(m, e.k, e.v), TRUE, "", "", 0, <<>>)
    [] e.op = "push"   -> IF e.k \in Keys(m) THEN Out(m, TRUE, "", "", 0, <<>>) ELSE Out(Put(m, e.k, e.v), FALSE, "", "", 0, <<>>)
    [] e.op = "pop"    -> IF m = <<>> THEN Out(m, FALSE, "", "", 0, <<>>)
                          ELSE Out(SubSeq(m, 1, Len(m) - 1), TRUE, m[Len(m)].k, m[Len(m)].v, 0, <<>>)
    [] e.op = "delete" -> IF e.k \in Keys(m) THEN Out(Del(m, e.k), TRUE, "", m[At(m, e.k)].v, 0, <<>>)
                          ELSE Out(m, FALSE, "", "", 0, <<>>)
    \* visits the pairs there were at its begin, at most e.n of them
    [] e.op = "range"  -> Out(m, TRUE, "", "", 0, IF e.n < Len(m) THEN SubSeq(m, 1, e.n) ELSE m)
    \* the same, every visit deletes the key visited and places it again
    [] e.op = "churn"  -> Out(m, TRUE, "", "", 0, m)
    [] e.op = "drain"  -> Out(<<>>, TRUE, "", "", 0, m)

New == {[m |-> <<>>, pend |-> <<>>]}
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
NoRes == [ok |-> FALSE, k |-> "", v |-> "", n |-> 0, seq |-> <<>>]
Effects(c, th) ==
  LET p == c.pend[th] IN
  IF p.done THEN {} ELSE LET o == Do(c.m, p.call) IN
    {[m |-> o.m, pend |-> Upd(c.pend, th, [done |-> TRUE, call |-> p.call, res |-> o.r])]}
RECURSIVE Close(_, _)
Close(C, F) == LET D == UNION {UNION {Effects(c, th) : th \in DOMAIN c.pend} : c \in F} \ C IN
               IF D = {} THEN C ELSE Close(C \cup D, D)
Closure(C) == Close(C, C)
\* the sets of configurations are kept closed under effects; a return only selects
Begin(C, th, e) == Closure({[c EXCEPT !.pend = Upd(@, th, [done |-> FALSE, call |-> e, res |-> NoRes])] : c \in C})
Return(C, th, r) == {[c EXCEPT !.pend = Drop(@, th)] : c \in {d \in C : d.pend[th].done /\ d.pend[th].res = r}}
=============================================================================
