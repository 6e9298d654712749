----------------------------- MODULE MC_ConcPre -----------------------------
(* Programs of a few calls: some before, then one call a of thread 1 beside  *)
(* the calls b of thread 2. Every order of their effects is explored; each   *)
(* program is forced upon the real code with thread 1 stopped before each of *)
(* its statements while thread 2 goes on.                                    *)
EXTENDS Conc, Json
CONSTANTS SetupIds, AIds, BIds, MaxB
VARIABLES prog, c, i, ok

Call(k, n, x, ch, bad) == [k |-> k, n |-> n, c |-> x, ch |-> ch, bad |-> bad]
CallOf(id) == CASE id = "pa1" -> Call("pack", "a", "x1", 1, FALSE) [] id = "pa2" -> Call("pack", "a", "x2", 2, FALSE)
                [] id = "pa0" -> Call("pack", "a", "x0", 0, FALSE)
                [] id = "pb1" -> Call("pack", "b", "y1", 1, FALSE) [] id = "xa1" -> Call("pack", "a", "x1", 1, TRUE)
                [] id = "xb1" -> Call("pack", "b", "y1", 1, TRUE)  [] id = "fa1" -> Call("file", "a", "x1", 1, FALSE)
                [] id = "fb1" -> Call("file", "b", "y1", 1, FALSE) [] id = "sync" -> Call("sync", "-", "-", 0, FALSE)
                [] id = "da"  -> Call("del", "a", "-", 0, FALSE)   [] id = "db" -> Call("del", "b", "-", 0, FALSE)
                [] id = "rab" -> Call("rename", "a", "b", 0, FALSE) [] id = "dc" -> Call("del", "c", "-", 0, FALSE) [] id = "ddp" -> Call("del", "d/p", "-", 0, FALSE)
                [] id = "rcb" -> Call("rename", "c", "b", 0, FALSE)
                [] id = "rca" -> Call("rename", "c", "a", 0, FALSE)
                [] id = "lca" -> Call("alias", "c", "a", 0, FALSE) [] id = "lcb" -> Call("alias", "c", "b", 0, FALSE)
                [] id = "mdg" -> Call("rendir", "d", "g", 0, TRUE) [] id = "mde" -> Call("rendir", "d", "e", 0, FALSE)
                [] id = "pdp" -> Call("pack", "d/p", "u1", 1, FALSE) [] id = "pdq" -> Call("pack", "d/q", "v1", 1, FALSE)
                [] id = "pgp" -> Call("pack", "g/p", "u2", 2, FALSE) [] id = "peq" -> Call("pack", "e/q", "v2", 2, FALSE)
                [] id = "pc1" -> Call("pack", "c", "z1", 1, FALSE)
Setups == {<<>>} \cup {<<x>> : x \in SetupIds} \cup {p \in SetupIds \X SetupIds : p[1] # p[2]}
Bs == UNION {[1..n -> BIds] : n \in 1..MaxB}
Fits(s, a, b) == LET all == {a} \cup {b[j] : j \in DOMAIN b} IN
   /\ \A id \in all : CallOf(id).k \in {"rename", "alias"} => \E j \in DOMAIN s : CallOf(s[j]).n = CallOf(id).n
   /\ \A id \in all : CallOf(id).k = "rendir" => \E j \in DOMAIN s : InDir(CallOf(s[j]).n, "d")
Init == /\ prog = [s |-> <<>>, a |-> "-", b |-> <<>>]
        /\ c = CHOOSE x \in New(<<>>, [st |-> "ok", tab |-> <<>>]) : TRUE
        /\ i = 0 /\ ok = 0
Pick == \E s \in Setups, a \in AIds, b \in Bs :
          /\ Fits(s, a, b) = TRUE
          /\ prog' = [s |-> s, a |-> a, b |-> b] /\ i' = 1
          /\ LET t == [j \in 1..Len(s) |-> [n |-> CallOf(s[j]).n, c |-> CallOf(s[j]).c, f |-> 0]] IN
             /\ c' = [c EXCEPT !.tab = t, !.pend = (1 :> Pend("wait", CallOf(a), Res("", <<>>)))] /\ ok' = Len(t)
\* thread 2 begins its next call, or a call has an effect
NextB == /\ i \in 1..Len(prog.b) /\ (2 \notin DOMAIN c.pend \/ c.pend[2].st = "done") = TRUE
         /\ c' = [c EXCEPT !.pend = Upd(@, 2, Pend("wait", CallOf(prog.b[i]), Res("", <<>>)))]
         /\ i' = i + 1 /\ UNCHANGED <<prog, ok>>
Gain(k, r) == IF r = "ok" /\ k.k \in {"pack", "file"} THEN 1 ELSE IF k.k = "del" /\ r = "yes" THEN 0 - 1 ELSE 0
Eff == \E th \in DOMAIN c.pend : \E d \in Effects(c, th) :
          /\ c' = d /\ UNCHANGED <<prog, i>>
          /\ ok' = ok + (IF d.pend[th].call.k = "alias" THEN Len(d.tab) - Len(c.tab)
                         ELSE IF d.pend[th].st = "done" THEN Gain(d.pend[th].call, d.pend[th].res.r) ELSE 0)
Next == IF i = 0 THEN Pick ELSE NextB \/ Eff
Fin == i > Len(prog.b) /\ i > 0 /\ \A th \in DOMAIN c.pend : c.pend[th].st = "done"
\* names are unique, and nothing is lost: each file is in the table or being moved
InvUniq == Cardinality(Names(c.tab)) = Len(c.tab)
InvCount == Len(c.tab) + Cardinality({th \in DOMAIN c.pend : c.pend[th].st = "half" /\ c.pend[th].res.r = "move"}) = ok
\* what was there before and no call renames or deletes keeps its content
Touched == {CallOf(id).n : id \in {x \in {prog.a} \cup {prog.b[j] : j \in DOMAIN prog.b} : CallOf(x).k \in {"del", "rename"}}}
InvKept == i > 0 => \A j \in DOMAIN prog.s : LET q == CallOf(prog.s[j]) IN
             (q.n \notin Touched /\ ~InDir(q.n, "d")) => \E x \in 1..Len(c.tab) : c.tab[x].n = q.n /\ c.tab[x].c = q.c
\* a sync writes a file being moved under one of its names
InvMoved == c.disk.tab # <<>> => \A j \in DOMAIN prog.s : LET q == CallOf(prog.s[j]) IN
             (\A id \in {prog.a} \cup {prog.b[x] : x \in DOMAIN prog.b} : CallOf(id).k # "del") =>
                \E x \in 1..Len(c.disk.tab) : c.disk.tab[x].c = q.c
\* no program gets stuck
InvEnd == i > 0 /\ ~Fin => ENABLED (NextB \/ Eff)
Ser(s) == [j \in DOMAIN s |-> CallOf(s[j])]
Emit == i = 0 => PrintT("GEN " \o ToJson([setup |-> Ser(prog'.s), a |-> CallOf(prog'.a), b |-> Ser(prog'.b)]))
=============================================================================
