------------------------------ MODULE MC_Conc -------------------------------
(* The design of packing and syncing step by step: one lock, positions and   *)
(* data in a shared file. With Locked = TRUE the invariants must hold; with  *)
(* Locked = FALSE they break, and the behaviours of that model are the       *)
(* schedules which are forced upon the real code (a step the lock forbids    *)
(* just waits there).                                                        *)
EXTENDS Conc, Json, Randomization
CONSTANTS Threads, CallIds, PerThread, Locked, Sim
VARIABLES prog, pc, lock, wpos, data, tab, disk, snap, off, left, res, okd, h, seq0

C(k, n, ch, bad) == [k |-> k, n |-> n, ch |-> ch, bad |-> bad]
CallOf(id) == CASE id = "pa0" -> C("pack", "a", 0, FALSE) [] id = "pa1" -> C("pack", "a", 1, FALSE)
                [] id = "pa2" -> C("pack", "a", 2, FALSE) [] id = "pb1" -> C("pack", "b", 1, FALSE)
                [] id = "pb2" -> C("pack", "b", 2, FALSE) [] id = "xa1" -> C("pack", "a", 1, TRUE)
                [] id = "xb1" -> C("pack", "b", 1, TRUE)  [] id = "fa1" -> C("file", "a", 1, FALSE)
                [] id = "fb2" -> C("file", "b", 2, FALSE) [] id = "fc2" -> C("file", "c", 2, FALSE)
                [] id = "sync" -> C("sync", "-", 0, FALSE)
Calls == {CallOf(id) : id \in CallIds}

vars == <<prog, pc, lock, wpos, data, tab, disk, snap, off, left, res, okd, h, seq0>>
\* pc[t] = [i |-> index of the call, at |-> step]; a call runs call -> s -> (r -> w)* -> r, or call -> s -> t -> h
Progs == UNION {[1..n -> Calls] : n \in 1..PerThread}
\* in a simulation each thread picks its program at its first step (a set of Init would be the same one in every behaviour)
Init == /\ prog \in (IF Sim THEN {[t \in Threads |-> <<>>]} ELSE [Threads -> Progs])
        /\ pc = [t \in Threads |-> [i |-> 1, at |-> "call"]]
        /\ lock = 0 /\ wpos = 0 /\ data = <<>> /\ tab = <<>> /\ disk = [tab |-> <<>>, ds |-> 0]
        /\ snap = [t \in Threads |-> <<>>] /\ off = [t \in Threads |-> 0] /\ left = [t \in Threads |-> 0]
        /\ res = <<>> /\ okd = {} /\ h = <<>> /\ seq0 = [t \in Threads |-> {}]

Call(t) == prog[t][pc[t].i]
Active(t) == pc[t].i <= Len(prog[t])
Tok(t) == <<t, pc[t].i>>
Acquire(t) == ~Locked \/ lock = 0
Hold(t) == IF Locked THEN t ELSE 0
NextCall(t) == [i |-> pc[t].i + 1, at |-> "call"]
Put(d, p, v) == [i \in 1..(IF p > Len(d) THEN p ELSE Len(d)) |-> IF i = p THEN v ELSE IF i <= Len(d) THEN d[i] ELSE <<0, 0>>]

Step(t) ==
  /\ Active(t)
  /\ h' = Append(h, t)
  /\ LET c == Call(t) a == pc[t].at IN
     CASE a = "call" -> /\ pc' = [pc EXCEPT ![t].at = "s"]
                        /\ seq0' = [seq0 EXCEPT ![t] = {x.n : x \in okd}]
                        /\ UNCHANGED <<lock, wpos, data, tab, disk, snap, off, left, res, okd>>
       [] a = "s" /\ c.k # "sync" ->
            /\ Acquire(t)
            /\ UNCHANGED <<wpos, data, tab, disk, snap, okd, seq0>>
            /\ IF \E i \in 1..Len(tab) : tab[i].n = c.n
               THEN /\ res' = Append(res, [t |-> t, i |-> pc[t].i, r |-> "exist"])
                    /\ pc' = [pc EXCEPT ![t] = NextCall(t)] /\ UNCHANGED <<off, left, lock>>
               ELSE /\ lock' = Hold(t) /\ off' = [off EXCEPT ![t] = wpos] /\ left' = [left EXCEPT ![t] = c.ch]
                    /\ pc' = [pc EXCEPT ![t].at = "r"] /\ UNCHANGED res
       [] a = "r" ->
            /\ UNCHANGED <<wpos, data, disk, snap, off, left, seq0>>
            /\ IF c.bad /\ left[t] = 0
               THEN /\ res' = Append(res, [t |-> t, i |-> pc[t].i, r |-> "err"])
                    /\ pc' = [pc EXCEPT ![t] = NextCall(t)] /\ lock' = 0 /\ UNCHANGED <<tab, okd>>
               ELSE IF left[t] = 0
               THEN LET e == [n |-> c.n, id |-> Tok(t), o |-> off[t], k |-> c.ch] IN
                    /\ tab' = Append(SelectSeq(tab, LAMBDA x : x.n # c.n), e) /\ okd' = okd \cup {e}
                    /\ res' = Append(res, [t |-> t, i |-> pc[t].i, r |-> "ok"])
                    /\ pc' = [pc EXCEPT ![t] = NextCall(t)] /\ lock' = 0
               ELSE /\ pc' = [pc EXCEPT ![t].at = "w"] /\ UNCHANGED <<tab, okd, res, lock>>
       [] a = "w" -> /\ data' = Put(data, wpos + 1, Tok(t)) /\ wpos' = wpos + 1
                     /\ left' = [left EXCEPT ![t] = @ - 1] /\ pc' = [pc EXCEPT ![t].at = "r"]
                     /\ UNCHANGED <<lock, tab, disk, snap, off, res, okd, seq0>>
       [] a = "s" /\ c.k = "sync" ->
            /\ Acquire(t) /\ lock' = Hold(t) /\ off' = [off EXCEPT ![t] = wpos] /\ pc' = [pc EXCEPT ![t].at = "t"]
            /\ UNCHANGED <<wpos, data, tab, disk, snap, left, res, okd, seq0>>
       [] a = "t" -> /\ snap' = [snap EXCEPT ![t] = tab] /\ pc' = [pc EXCEPT ![t].at = "h"]
                     /\ UNCHANGED <<lock, wpos, data, tab, disk, off, left, res, okd, seq0>>
       [] a = "h" -> /\ disk' = [tab |-> snap[t], ds |-> off[t]] /\ lock' = 0
                     /\ res' = Append(res, [t |-> t, i |-> pc[t].i, r |-> "ok"])
                     /\ pc' = [pc EXCEPT ![t] = NextCall(t)]
                     /\ UNCHANGED <<wpos, data, tab, snap, off, left, okd, seq0>>
  /\ prog' = prog
Unpicked == {t \in Threads : prog[t] = <<>>}
Pick == /\ \E t \in Unpicked : \E p \in RandomSubset(1, IF pc[t].i > 0 THEN Progs ELSE {}) : prog' = [prog EXCEPT ![t] = p]
        /\ UNCHANGED <<pc, lock, wpos, data, tab, disk, snap, off, left, res, okd, h, seq0>>
Next == IF Unpicked # {} THEN Pick ELSE \E t \in Threads : Step(t)
Done == Unpicked = {} /\ \A t \in Threads : ~Active(t)

Whole(e) == \A j \in 1..e.k : e.o + j <= Len(data) /\ data[e.o + j] = e.id
\* every accepted call is in the table with its own data
InvKept == \A e \in okd : Whole(e) /\ \E i \in 1..Len(tab) : tab[i] = e
\* the written table has only whole files inside the recorded data area, each once
InvDisk == \A i \in 1..Len(disk.tab) : /\ Whole(disk.tab[i]) /\ disk.tab[i].o + disk.tab[i].k <= disk.ds
                                       /\ disk.tab[i].id \in {e.id : e \in okd}
\* a sync that returned wrote everything accepted before its begin
ActSync == [][\A t \in Threads : (pc[t].at = "h" /\ pc'[t].at = "call") =>
               \A n \in seq0[t] : \E i \in 1..Len(disk'.tab) : disk'.tab[i].n = n]_vars
View == <<prog, pc, lock, wpos, data, tab, disk, snap, off, left, okd, seq0>>
Ser == [t \in 1..Cardinality(Threads) |-> prog'[t]]
Emit == Done' => PrintT("GEN " \o ToJson([prog |-> Ser, sched |-> h']))
=============================================================================
