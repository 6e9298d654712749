---------------------------- MODULE Trace_Large -----------------------------
EXTENDS Large, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, skip
Tab(t) == [i \in 1..Len(t) |-> [k |-> t[i].k, off |-> t[i].off, n |-> t[i].n]]
\* live: table and data size; after a sync also the file: header, quick information and every file read in an access mode
GoodFile(s, f) ==
  LET e == s.disk[f.i] IN
    /\ f.err = "" /\ f.size = e.n /\ f.seekend = e.n
    /\ \A j \in 1..Len(f.reads) : LET r == f.reads[j]  x == ReadAt(e, r.p) IN r.k = x.k /\ r.b = x.b
    /\ \A j \in 1..Len(Marks(e.n)) : \E q \in 1..Len(f.reads) : f.reads[q].p = Marks(e.n)[j]
Good(s, e) ==
  /\ e.r.crash = "" /\ e.r.err = ""
  /\ e.r.tab = Tab(s.tab) /\ (e.op \in {"sync", "append"} => e.r.ds = s.dsize)
  /\ e.op = "sync" =>
       LET d == e.r.disk IN
       /\ d.err = "" /\ d.tab = Tab(s.disk) /\ d.ds = s.ds /\ d.qds = s.ds /\ d.off = Base(s) /\ d.hds = s.ds
       /\ (s.mode = "single" => d.fo = s.end)
       /\ \A i \in 1..Len(d.files) : GoodFile(s, d.files[i])
Fail(e, exp) == PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(exp))
Init == l = 1 /\ S = New("split") /\ skip = FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN S' = New(e.mode) /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED <<S, skip>>
           ELSE LET t == Do(S, e) IN
             IF Good(t, e) THEN S' = t /\ skip' = FALSE
             ELSE Fail(e, t) /\ skip' = TRUE /\ S' = S
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
