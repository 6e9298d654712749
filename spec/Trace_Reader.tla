----------------------------- MODULE Trace_Reader ---------------------------
EXTENDS Reader, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, skip
Good(s, e, o) ==
  /\ e.r.crash = ""
  /\ e.r.err \in o.errs
  /\ (o.k >= 0 => DataIs(s, e.r, o.p, o.k))
  /\ (e.op \in {"stat", "seek"} /\ o.v >= 0 => e.r.v = o.v)
Fail(e, exp) == PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(exp))
Init == l = 1 /\ S = New(0, 0, TRUE) /\ skip = FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN S' = New(e.n, e.salt, e.present) /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED <<S, skip>>
           ELSE LET A == Do(S, e)  G == {o \in A : Good(S, e, o)} IN
             IF G = {} THEN Fail(e, [out |-> A, size |-> S.n, pos |-> S.pos]) /\ skip' = TRUE /\ S' = S
             ELSE S' = (CHOOSE o \in G : TRUE).s /\ skip' = FALSE
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
