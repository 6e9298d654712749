---------------------------- MODULE Trace_Tagset ----------------------------
EXTENDS Tagset, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, skip

Good(e, o) ==
  /\ e.r.crash = ""
  /\ e.r.ok = o.r.ok /\ e.r.v = o.r.v /\ e.r.n = o.r.n
  /\ e.r.a = o.s["a"] /\ e.r.b = o.s["b"]
GoodRaw(e) == e.r.crash = "" /\
  LET x == RawRes(e.b, e.t) IN
    /\ e.r.tags = x.tags /\ e.r.failed = x.failed /\ e.r.num = x.num
    /\ e.r.has = x.has /\ e.r.got = x.got /\ e.r.val = x.val /\ e.r.reset = x.reset

Fail(e, exp) == PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(exp))

Init == l = 1 /\ S = {[x \in Handles |-> <<>>]} /\ skip = FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN S' = {[x \in Handles |-> <<>>]} /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED <<S, skip>>
           ELSE IF e.op = "raw" THEN
             IF GoodRaw(e) THEN UNCHANGED <<S, skip>>
             ELSE Fail(e, RawRes(e.b, e.t)) /\ skip' = TRUE /\ S' = S
           ELSE LET A == UNION {Do(s, e) : s \in S}
                    G == {o \in A : Good(e, o)} IN
             IF G = {} THEN Fail(e, A) /\ skip' = TRUE /\ S' = S
             ELSE S' = {o.s : o \in G} /\ skip' = FALSE
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
