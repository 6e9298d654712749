------------------------------ MODULE MC_Store ------------------------------
EXTENDS Store, Json, Randomization
CONSTANTS Modes, Keys0, Contents, TagVals, OpSet, MaxTab, MaxPuts, MaxOps, Cuts, Sim
VARIABLES s, h
Keys == Keys0 \cup (IF Sim THEN {"d\\e/c"} ELSE {})

E0 == [op |-> "", k |-> "", k2 |-> "", c |-> "", t |-> 0, v |-> "", L |-> <<>>, j |-> 0, t0 |-> ""]
\* with long values: one that just fits as package information, and one byte more
Infos == {<<>>, <<[t |-> 110, v |-> "6c62"]>>}
         \cup IF "@65000" \in TagVals THEN {<<[t |-> 110, v |-> "@65531"]>>, <<[t |-> 110, v |-> "@65532"]>>} ELSE {}
Base(st) == UNION {
    IF "new"     \in OpSet THEN {[E0 EXCEPT !.op = "new"]} ELSE {},
    {[E0 EXCEPT !.op = o] : o \in {"begin", "sync", "append", "reopen"} \cap OpSet},
    IF "put"     \in OpSet THEN {[E0 EXCEPT !.op = "put", !.k = k, !.c = c] : k \in Keys, c \in Contents} ELSE {},
    IF "settag"  \in OpSet THEN {[E0 EXCEPT !.op = "settag", !.k = k, !.t = 110, !.v = v] : k \in Keys, v \in TagVals} ELSE {},
    IF "deltag"  \in OpSet THEN {[E0 EXCEPT !.op = "deltag", !.k = k, !.t = 110] : k \in Keys} ELSE {},
    IF "setinfo" \in OpSet THEN {[E0 EXCEPT !.op = "setinfo", !.L = L] : L \in Infos} ELSE {},
    {[E0 EXCEPT !.op = o, !.k = k] : o \in {"del", "hold"} \cap OpSet, k \in Keys},
    {[E0 EXCEPT !.op = o, !.k = k, !.k2 = k2] : o \in {"rename", "alias"} \cap OpSet, k \in Keys, k2 \in Keys}}
Ops(st) == LET B == {e \in Base(st) : Legal(st, e)} IN
  B \cup (IF "stop" \in OpSet THEN
            {e \in {[op |-> "stop", in |-> b, j |-> j] : b \in {x \in B : x.op \in {"put", "sync", "append"}}, j \in Cuts} :
             Legal(st, e)} ELSE {})

\* random histories: the kind of operation is chosen before its arguments, those that lead on come oftener
Weight(o) == IF o = "put" THEN IF s.phase = "open" THEN 10 ELSE 0
             ELSE IF o \in {"sync", "append", "stop", "hold"} THEN 5
             ELSE IF o = "begin" THEN IF s.disk.st = "absent" THEN 10 ELSE 1
             ELSE IF o = "reopen" THEN IF s.disk.st = "ok" THEN 3 ELSE 1
             ELSE IF o = "new" THEN 1
             ELSE IF s.tab = <<>> THEN 1 ELSE 4
\* a name to act on that is there is drawn oftener
Apt(K) == LET A == {e \in K : IF e.op = "put" THEN ~Has(s.tab, Slash(e.k))
                              ELSE IF e.op \in {"rename", "alias"} THEN Has(s.tab, Slash(e.k)) /\ ~Has(s.tab, Slash(e.k2))
                              ELSE IF e.op \in {"settag", "deltag", "del"} THEN Has(s.tab, Slash(e.k))
                              ELSE TRUE} IN
          IF A # {} /\ RandomElement(1..6) > 1 THEN A ELSE K
Kind(o, K) == IF K = {} \/ RandomElement(1..10) > Weight(o) THEN {} ELSE RandomSubset(1, Apt(K))
Some(X) == IF ~Sim THEN X
           ELSE LET Y == UNION {Kind(o, {x \in X : x.op = o}) : o \in OpSet} IN IF Y = {} THEN RandomSubset(1, X) ELSE Y
Init == h = <<>> /\ \E m \in Modes : s = New(m)
Next == /\ Len(h) < MaxOps
        /\ \E e \in Some(Ops(s)) : \E o \in Do(s, e) :
              s' = o.s /\ h' = Append(h, e)
Bound == /\ Len(s.tab) <= MaxTab
         /\ s.nd <= MaxPuts
Emit == IF Sim THEN (Len(h') = MaxOps => PrintT("GEN " \o ToJson([mode |-> s.mode, ops |-> h'])))
        ELSE PrintT("GEN " \o ToJson([mode |-> s.mode, ops |-> h']))
View == <<s.mode, s.phase, s.tab, s.info, s.disk, s.nd, s.held, s.dirty>>

I1 == InvNames(s)
I2 == InvData(s)
I3 == InvReadable(s)
\* what is synced is what the writer held, and only sync, append and begin change what readers see
ActDisk == [][ LET e == h'[Len(h')] IN
     /\ e.op = "sync" => \/ s'.disk = Disk("ok", s.tab, s.info)
                         \/ ~SurelyStorable(s) /\ (s'.disk = s.disk \/ (s.mode = "single" /\ s'.disk.st = "notready"))
     /\ e.op \notin {"sync", "begin", "append", "stop"} => s'.disk = s.disk
     /\ (e.op = "append" /\ s.mode = "split") => s'.disk = s.disk ]_<<s, h>>
\* packing never changes what is already there
ActKeep == [][ LET e == h'[Len(h')] IN e.op = "put" =>
     /\ SubSeq(s'.tab, 1, Len(s.tab)) = s.tab
     /\ SubSeq(s'.held, 1, Len(s.held)) = s.held ]_<<s, h>>
=============================================================================
