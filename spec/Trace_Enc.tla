------------------------------ MODULE Trace_Enc -----------------------------
EXTENDS Enc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Good(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "enc" -> e.r.crash = "" /\ e.r.b = Enc(e.kind, e.v, e.ns)
    \* all getters, on the bare tag and within a tag set
    [] e.op = "dec" -> e.r.crash = "" /\ \A k \in Kinds : DecOK(k, e.v, e.r.raw[k]) /\ DecOK(k, e.v, e.r.set[k]) /\ ~e.r.absent[k].ok
    \* accessors of an entry: times of the tag with these bytes
    [] e.op = "times" -> /\ e.r.crash = ""
                         /\ \A x \in {"m", "a", "c", "b"} : Len(e.v) \in {8, 12} => DecOK("time", e.v, e.r[x])
                         /\ e.r.hasc /\ e.r.hasb
    [] e.op = "notimes" -> e.r.crash = "" /\ ~e.r.hasc /\ ~e.r.hasb
    \* the helpers of the package util: value v of the width as bytes, and back
    [] e.op = "num" -> /\ e.r.crash = "" /\ e.r.set = e.v /\ e.r.get = e.v
                       /\ e.r.write = e.v /\ e.r.werr
                       /\ e.r.read = e.v /\ e.r.short
Fail(e, exp) == PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(exp))
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ (Good(Trace[l]) \/ Fail(Trace[l], IF Trace[l].op = "enc" THEN Enc(Trace[l].kind, Trace[l].v, Trace[l].ns) ELSE <<>>))
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
