----------------------------- MODULE Trace_Format ---------------------------
EXTENDS Format, Json, IOUtils
CONSTANT Aspects
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

TabIs(r, o) == /\ r.tab = o.tab /\ r.info = o.info

OpenOK(e) == LET o == Open(e.b) IN
  /\ Len(e.rs) = 1                     \* the same outcome however the stream splits its data
  /\ \A i \in 1..Len(e.rs) : LET r == e.rs[i] IN
     /\ r.crash = ""
     /\ IF o.st = "ok" THEN (r.st = "ok" /\ TabIs(r, o) /\ r.cnt = Len(o.tab) /\ r.ds = Hdr(e.b).ds /\ r.split = (Hdr(e.b).do = 0))
                            \/ (o.v = "any" /\ r.st # "ok")
        ELSE IF o.st = "err" THEN r.st # "ok" ELSE r.st = o.st
  /\ e.kb <= 1024 + Len(e.b)

QuickOK(e) == LET o == Quick(e.b)  q == e.q  h == Hdr(e.b) IN
  /\ Len(e.qs) = 1
  /\ \A i \in 1..Len(e.qs) : LET r == e.qs[i] IN
     /\ r.crash = ""
     /\ IF o.st = "ok" THEN (r.st = "ok" /\ r.info = o.info /\ r.cnt = h.cnt /\ r.fs = h.fs /\ r.ds = h.ds)
                            \/ (o.v = "any" /\ r.st # "ok")
        ELSE IF o.st = "err" THEN r.st # "ok" ELSE r.st = o.st

\* a table read from a stream
TableOK(e) == LET h == [do |-> e.do, ds |-> e.ds]  t == Table(e.b, 1, Len(e.b), h) IN
  /\ Len(e.rs) = 1
  /\ \A i \in 1..Len(e.rs) : LET r == e.rs[i] IN
     /\ r.crash = ""
     /\ IF t.v = "bad" THEN r.st # "ok"
        ELSE (r.st = "ok" /\ TabIs(r, t) /\ r.n = t.end - 1) \/ (t.v = "any" /\ r.st # "ok")

Good(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "open"  -> ("open" \in Aspects => OpenOK(e)) /\ ("quick" \in Aspects => QuickOK(e))
    [] e.op = "table" -> "open" \in Aspects => TableOK(e)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ (Good(Trace[l]) \/ PrintT("MISMATCH " \o ToString(l) \o " " \o
              ToJson(IF Trace[l].op = "open" THEN [open |-> Open(Trace[l].b), quick |-> Quick(Trace[l].b)]
                     ELSE [open |-> Table(Trace[l].b, 1, Len(Trace[l].b), [do |-> Trace[l].do, ds |-> Trace[l].ds]), quick |-> "-"])))
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
