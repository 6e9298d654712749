--------------------------- MODULE MC_SeqMapPre -----------------------------
(* Programs of a few operations on one map: some before, then the operation  *)
(* a of thread 1 beside the operations b of thread 2. Every order of their   *)
(* effects is explored; each program is forced upon the real map with        *)
(* thread 1 stopped before each of its statements while thread 2 goes on.    *)
EXTENDS SeqMap, Json
CONSTANTS Ks, MaxB
VARIABLES prog, c, i
E0(op, k, v, n) == [op |-> op, k |-> k, v |-> v, n |-> n]
Ops(v) == {E0(o, k, v, 0) : o \in {"poke", "push"}, k \in Ks}
          \cup {E0(o, k, "", 0) : o \in {"has", "peek", "delete"}, k \in Ks}
          \cup {E0(o, "", "", 0) : o \in {"pop", "len"}} \cup {E0("range", "", "", n) : n \in {1, 99}}
Put1(k) == E0("poke", k, "v" \o k, 0)
Setups == {<<>>} \cup {<<Put1(k)>> : k \in Ks} \cup {<<Put1(p[1]), Put1(p[2])>> : p \in {q \in Ks \X Ks : q[1] # q[2]}}
          \cup {<<Put1("a"), Put1("b"), Put1("z")>>}
Bs == {<<o>> : o \in Ops("x")} \cup (IF MaxB > 1 THEN {<<o, p>> : o \in Ops("x"), p \in Ops("y")} ELSE {})
RECURSIVE After(_, _)
After(m, s) == IF s = <<>> THEN m ELSE After(Do(m, s[1]).m, Tail(s))
Init == prog = [s |-> <<>>, a |-> E0("len", "", "", 0), b |-> <<>>] /\ c = (CHOOSE x \in New : TRUE) /\ i = 0
Wait(e) == [done |-> FALSE, call |-> e, res |-> NoRes]
Pick == \E s \in Setups, a \in Ops("w"), b \in Bs :
          /\ prog' = [s |-> s, a |-> a, b |-> b] /\ i' = 1
          /\ c' = [m |-> After(<<>>, s), pend |-> (1 :> Wait(a))]
NextB == /\ i \in 1..Len(prog.b) /\ (2 \notin DOMAIN c.pend \/ c.pend[2].done) = TRUE
         /\ c' = [c EXCEPT !.pend = Upd(@, 2, Wait(prog.b[i]))] /\ i' = i + 1 /\ UNCHANGED prog
Eff == \E th \in DOMAIN c.pend : \E d \in Effects(c, th) : c' = d /\ UNCHANGED <<prog, i>>
Next == IF i = 0 THEN Pick ELSE NextB \/ Eff
InvUniq == Uniq(c.m)
\* a key nobody touches stays with its value, in the order of placing
Touched == {prog.a.k} \cup {prog.b[j].k : j \in DOMAIN prog.b}
Pops == "pop" \in {prog.a.op} \cup {prog.b[j].op : j \in DOMAIN prog.b}
InvStay == ~Pops => LET old == SelectSeq(After(<<>>, prog.s), LAMBDA p : p.k \notin Touched) IN
             i > 0 => SelectSeq(c.m, LAMBDA p : p.k \notin Touched) = old
Emit == i = 0 => PrintT("GEN " \o ToJson([setup |-> prog'.s, a |-> prog'.a, b |-> prog'.b]))
=============================================================================
