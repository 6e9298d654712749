---------------------------- MODULE Trace_SeqMap ----------------------------
EXTENDS SeqMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, skip
\* sequential events carry the call, its result and the whole map seen after it
OneThread(C, e) == LET P == {c \in C : LET o == Do(c.m, e) IN e.crash = "" /\ e.r = o.r /\ e.all = o.m} IN
             {[m |-> Do(c.m, e).m, pend |-> c.pend] : c \in P}
Post(C, e) == CASE e.op = "call" -> Begin(C, e.th, e.e)
                [] e.op = "ret" -> IF e.crash # "" THEN {} ELSE Return(C, e.th, e.r)
                [] OTHER -> OneThread(C, e)
Fail(e, exp) == PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(exp))
Init == l = 1 /\ S = New /\ skip = FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN S' = New /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED <<S, skip>>
           ELSE LET P == Post(S, e) IN
             IF P = {} THEN Fail(e, {c.m : c \in S}) /\ skip' = TRUE /\ S' = S
             ELSE S' = P /\ skip' = FALSE
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
