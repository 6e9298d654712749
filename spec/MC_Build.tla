------------------------------ MODULE MC_Build -------------------------------
EXTENDS Build, Json, Randomization
CONSTANTS OpSet, Keys, Paths, Kinds, MaxStmts, MaxScripts, MaxRuns, Sim
VARIABLES disk, R, runs, cur      \* runs that are over, the scripts of the current one

P(k, v) == [k |-> k, v |-> v]
env == [len |-> [c \in {"c1", "c3"} |-> IF c = "c1" THEN 9 ELSE 100],
        mime |-> [k \in Keys |-> [c \in {"c1", "c3"} |-> [v |-> "mime", b |-> "smime"]]],
        dig |-> [c \in {"c1", "c3"} |-> [s \in {"s0", "s1"} |-> [a \in {"crc32", "md5"} |-> a \o s \o c]]]]
E0 == [op |-> "", k |-> "", c |-> "", a |-> "", b |-> "", T |-> <<>>, mt |-> [v |-> "mt", b |-> "smt"], try |-> FALSE]
Few(X) == IF ~Sim \/ Len(cur) > 1000 \/ Cardinality(X) < 2 THEN X ELSE RandomSubset(1, X)
On(o) == o \in OpSet
Dat(e) == IF e.op \in {"begin", "load"} /\ e.b = "on" THEN [e EXCEPT !.b = e.a \o ".dat"] ELSE e
Tries(X) == {[x EXCEPT !.try = b] : x \in X, b \in {TRUE, FALSE}}
Ops == Tries(UNION {
  {[E0 EXCEPT !.op = o] : o \in {"new", "append", "flush", "finalize"} \cap OpSet},
  IF On("begin") THEN {[E0 EXCEPT !.op = "begin", !.a = p, !.b = d] : p \in Few(Paths), d \in {"", "on"}} ELSE {},
  IF On("load") THEN {[E0 EXCEPT !.op = "load", !.a = p, !.b = d] : p \in Few(Paths), d \in {"", "on"}} ELSE {},
  IF On("putdata") THEN {[E0 EXCEPT !.op = "putdata", !.k = k, !.c = c, !.T = T] : k \in Few(Keys), c \in Few({"c1", "c3"}), T \in Few({<<>>, <<P("comment", "abc")>>})} ELSE {},
  IF On("rename") THEN {[E0 EXCEPT !.op = "rename", !.k = k, !.a = a] : k \in Few(Keys), a \in Few(Keys)} ELSE {},
  IF On("delalias") THEN {[E0 EXCEPT !.op = "delalias", !.k = k] : k \in Few(Keys)} ELSE {},
  IF On("label") THEN {[E0 EXCEPT !.op = "label", !.b = v] : v \in Few({"abc", "hex"})} ELSE {}})
  \cup (IF On("auto") THEN {[E0 EXCEPT !.op = "auto", !.a = a, !.b = "on"] : a \in Few({"crc32", "md5", "mime"})} ELSE {})
  \cup (IF On("secret") THEN {[E0 EXCEPT !.op = "secret", !.a = "s1"]} ELSE {})
  \cup {[E0 EXCEPT !.op = o, !.a = "x"] : o \in {"log", "where", "set", "get", "fail"} \cap OpSet}

\* in simulation kinds that lead nowhere in the state come less often
Weight(o) == IF o = "putdata" THEN IF R.S.open = "no" THEN 1 ELSE 10
             ELSE IF o \in {"begin", "load"} THEN IF R.S.open = "no" THEN 8 ELSE 1
             ELSE IF o = "append" THEN IF R.S.open = "no" /\ R.S.path # "" THEN 10 ELSE 1
             ELSE IF o \in {"flush", "finalize"} THEN IF R.S.open # "no" /\ R.S.tab # <<>> THEN 6 ELSE 1
             ELSE IF o \in {"fail", "new"} THEN 1 ELSE 2
Pick(o, K) == IF K = {} \/ RandomElement(1..10) > Weight(o) THEN {} ELSE RandomSubset(1, K)
Some(X) == IF ~Sim THEN X ELSE LET Y == UNION {Pick(o, {x \in X : x.op = o}) : o \in OpSet} IN IF Y = {} THEN RandomSubset(1, X) ELSE Y
vars == <<disk, R, runs, cur>>
NewScript(k) == [kind |-> k, q |-> <<>>]
Init == /\ disk = [p \in Paths |-> NoDisk] /\ R = Start(disk) /\ runs = <<>> /\ cur = <<NewScript("ok")>>
Last == cur[Len(cur)]
\* a statement of the script at hand; behind the end of a run only few are of interest
Step == /\ Last.kind = "ok" /\ Len(Last.q) < MaxStmts
        /\ \E e0 \in Some(Ops) : LET e == Dat(e0) IN
             /\ Legal(R.S, e) = TRUE
             /\ (R.on \/ Len(Last.q) < 2 \/ ~Sim) = TRUE
             /\ (Sim /\ ~e.try /\ R.on /\ e.op \notin {"fail", "set", "get", "log", "where", "auto", "secret"} /\ Do(env, R.S, e, AdOf(R.S)).err # "" => RandomElement(1..10) = 1) = TRUE
             /\ R' = Stmt(env, R, e)
             /\ cur' = [cur EXCEPT ![Len(cur)].q = Append(@, e)]
        /\ UNCHANGED <<disk, runs>>
NextScript == /\ Len(cur) < MaxScripts /\ (Last.kind = "ok" => Last.q # <<>>)
              /\ (Sim /\ Last.kind = "ok" => RandomElement(1..12) <= Len(Last.q)) = TRUE
              /\ \E k \in (IF Sim /\ RandomElement(1..5) # 1 THEN {"ok"} ELSE Kinds) : /\ R' = IF ~R.on THEN R ELSE IF k # "ok" THEN Stop(R) ELSE Fresh2(R)
                                  /\ cur' = Append(cur, NewScript(k))
              /\ UNCHANGED <<disk, runs>>
EndRun == /\ Len(runs) < MaxRuns /\ (Last.kind = "ok" => Last.q # <<>>)
          /\ (Sim /\ Last.kind = "ok" => RandomElement(1..15) <= Len(Last.q)) = TRUE
          /\ runs' = Append(runs, cur) /\ disk' = R.S.disk /\ R' = Start(R.S.disk) /\ cur' = <<NewScript("ok")>>
Next == Step \/ NextScript \/ EndRun
\* the run as a whole gives what its statements gave one by one
ActRun == [][runs' # runs => Run(env, disk, cur) = [log |-> R.log, disk |-> R.S.disk, ok |-> R.on]]_vars
\* after a failure nothing happens any more
ActStop == [][~R.on /\ runs' = runs => R' = R]_vars
\* a package is ready only when its session was ended or flushed
InvReady == \A p \in Paths : (R.S.open = "single" /\ R.S.path = p) => R.S.disk[p].st = "pre"
Emit == (runs' # runs /\ (Sim => Len(runs') = MaxRuns)) => PrintT("GEN " \o ToJson([runs |-> runs']))
View == <<disk, R, Len(runs), Len(cur), Last.kind, Len(Last.q)>>
==============================================================================
