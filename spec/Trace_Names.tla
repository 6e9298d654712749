----------------------------- MODULE Trace_Names ----------------------------
(* Validates recorded histories of name operations and batteries of queries. *)
EXTENDS Names, Json, IOUtils
CONSTANT Aspects     \* "ops", "root", "sub", "union"
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, nd, skip

Do(L, e) == CASE e.op = "put" -> Put(L, e.ws, e.a, ToString(nd + 1), "t0")
           [] e.op = "del" -> Del(L, e.ws, e.a)
           [] e.op = "tag" -> Tag(L, e.ws, e.a, e.t)
           [] e.op = "rename" -> Rename(L, e.ws, e.a, e.b)
           [] e.op = "alias" -> Alias(L, e.ws, e.a, e.b)
           [] e.op = "renamedir" -> RenameDir(L, e.ws, e.a, e.b, e.skip)
           [] e.op = "reopen" -> Res(L, "", 0)     \* synced, opened again and appended to
           [] e.op = "sub" -> LET R == Rel(L, e.ws) IN
                Res(L, IF R # <<>> /\ IsDir(R, Slash(e.a)) THEN "" ELSE "notexist", 0)
Judged(e) == ("ops" \in Aspects) \/ (e.ws # "." /\ "sub" \in Aspects)
\* the whole package after an operation: names, stored paths, data and tags
TabOK(L, q) == /\ Len(q) = Len(L)
               /\ {q[i] : i \in 1..Len(q)} = {[k |-> L[i].k, p |-> L[i].k, d |-> L[i].d, t |-> L[i].t] : i \in 1..Len(L)}
OpOK(o, e) == /\ e.r.crash = ""
              /\ e.r.err = o.err
              /\ (e.op = "renamedir" => e.r.cnt = o.cnt)
              /\ TabOK(o.L, e.r.tab) /\ e.r.num = Len(o.L)
Fail(e, exp) == PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(exp))

\* a battery of queries on a view
WsOK(L, e, w) == LET R == Rel(L, w) IN
  {i \in 1..Len(e.qs) : IF e.qs[i].q \in {"full", "trim"} THEN ~PathOK(w, e.qs[i])
                        ELSE ~QueryOK(R, w = "." \/ R # <<>>, e.qs[i]) /\ (w = "." \/ ~Clash(L) \/ e.qs[i].q = "keys")}
\* a battery on a union: S is the list of <<entries, view>>
UnionList == Merge([i \in 1..Len(S) |-> Rel(S[i].L, S[i].ws)])
UnOK(e) == LET R == Rel(UnionList, e.ws)
               rooted == R # <<>> \/ (IsRoot(e.ws) /\ \E i \in 1..Len(S) : S[i].ws = ".") IN
  {i \in 1..Len(e.qs) : ~(e.qs[i].crash = "" /\ IF Clash(UnionList) THEN (R = <<>> \/ AnswerClash(R, e.qs[i])) ELSE Answer(R, rooted, e.qs[i]))}
\* raw content by index, only defined when the packages are taken whole
RawOK(e) == LET whole == \A i \in 1..Len(S) : S[i].ws = "." IN
  {i \in 1..Len(e.qs) : LET q == e.qs[i] IN
     ~(q.crash = "" /\ (whole => IF q.n < Len(S) THEN q.r.e = "" /\ q.r.same ELSE q.r.e = "notexist"))}

Init == l = 1 /\ S = <<>> /\ nd = 0 /\ skip = FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN S' = e.init /\ nd' = 0 /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED <<S, nd, skip>>
           ELSE IF e.op = "broken" THEN Fail(e, "a package that opens") /\ skip' = TRUE /\ UNCHANGED <<S, nd>>
           ELSE IF e.op = "q" THEN
             /\ UNCHANGED <<S, nd>>
             /\ LET bad == IF (IF e.ws = "." THEN "root" ELSE "sub") \in Aspects THEN WsOK(S, e, e.ws) ELSE {} IN
                IF bad # {} THEN Fail(e, [bad |-> {e.qs[i] : i \in bad}, list |-> Rel(S, e.ws)]) /\ skip' = TRUE
                ELSE skip' = FALSE
           ELSE IF e.op = "uq" THEN
             /\ UNCHANGED <<S, nd>>
             /\ LET bad == UnOK(e) IN
                IF bad # {} THEN Fail(e, [bad |-> {e.qs[i] : i \in bad}, list |-> Rel(UnionList, e.ws)]) /\ skip' = TRUE
                ELSE skip' = FALSE
           ELSE IF e.op = "raw" THEN
             /\ UNCHANGED <<S, nd>>
             /\ LET bad == RawOK(e) IN
                IF bad # {} THEN Fail(e, {e.qs[i] : i \in bad}) /\ skip' = TRUE ELSE skip' = FALSE
           ELSE IF e.op = "uclose" THEN
             /\ UNCHANGED <<S, nd>>
             /\ IF e.r.crash = "" /\ e.r.closed = [i \in 1..Len(S) |-> 1] /\ e.r.err = e.fails THEN skip' = FALSE
                ELSE Fail(e, "every package closed once, a failure reported") /\ skip' = TRUE
           ELSE LET o == Do(S, e) IN
             /\ nd' = IF e.op = "put" /\ o.err = "" THEN nd + 1 ELSE nd
             /\ IF OpOK(o, e) THEN S' = o.L /\ skip' = FALSE
                ELSE IF ~Judged(e) THEN skip' = TRUE /\ S' = o.L     \* another property's matter
                ELSE Fail(e, o) /\ skip' = TRUE /\ S' = S
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
