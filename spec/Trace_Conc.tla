----------------------------- MODULE Trace_Conc -----------------------------
EXTENDS Conc, Json, IOUtils
CONSTANT Aspects            \* "views": the written package is judged too
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, skip

Blank(mode) == IF mode = "split" THEN [st |-> "ok", tab |-> <<>>] ELSE [st |-> "notready", tab |-> <<>>]
Post(C, e) ==
  CASE e.op = "call" -> Begin(C, e.th, [k |-> e.k, n |-> e.n, c |-> e.c, bad |-> e.bad])
    [] e.op = "ret"  -> IF e.crash # "" \/ ~e.own THEN {} ELSE Return(C, e.th, [r |-> e.r, v |-> e.v])
    [] e.op = "view" -> IF "views" \notin Aspects THEN C
                        ELSE IF e.v.st = "ok" /\ (e.hcnt # Len(e.v.tab) \/ ~e.inside) THEN {}
                        ELSE See(C, e.v)
    [] e.op = "mem"  -> SeeTab(C, e.tab)
Fail(e, exp) == PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(exp))
Init == l = 1 /\ S = New(<<>>, Blank("split")) /\ skip = FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN S' = New(<<>>, Blank(e.mode)) /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED <<S, skip>>
           ELSE LET P == Post(S, e) IN
             IF P = {} THEN Fail(e, {[tab |-> c.tab, disk |-> c.disk] : c \in S}) /\ skip' = TRUE /\ S' = S
             ELSE S' = P /\ skip' = FALSE
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
