----------------------------- MODULE Trace_Build -----------------------------
EXTENDS Build, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, disk, env, skip

SetOf(q) == {q[i] : i \in 1..Len(q)}
VT(X) == {[t |-> x.t, v |-> x.v] : x \in X}
TabOK(T, q) ==
  /\ Len(q) = Len(T)
  /\ \A i \in 1..Len(T) : /\ q[i].k = T[i].k /\ q[i].p = T[i].k /\ q[i].c = T[i].c
                          /\ q[i].n = env.len[T[i].c]
                          /\ SetOf(q[i].tags) = VT(T[i].tags)
DiskOK(D, q) ==
  \A p \in DOMAIN D :
    LET d == D[p]  x == q[p] IN
    IF d.st = "none" THEN x.st # "ok"
    ELSE IF d.st = "pre" THEN x.st = "notready"
    ELSE x.st = "ok" /\ TabOK(d.tab, x.tab) /\ SetOf(x.info) = VT(d.info)
Good(e, o) == e.r.crash = "" /\ e.r.log = o.log /\ DiskOK(o.disk, e.r.disk)
Init == l = 1 /\ disk = <<>> /\ env = <<>> /\ skip = FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN disk' = [p \in SetOf(e.paths) |-> NoDisk] /\ env' = e.env /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED <<disk, env, skip>>
           ELSE LET o == Run(env, disk, e.scripts) IN
             /\ env' = env /\ disk' = o.disk
             /\ IF Good(e, o) THEN skip' = FALSE
                ELSE PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson([want |-> [log |-> o.log, disk |-> o.disk]])) /\ skip' = TRUE
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
