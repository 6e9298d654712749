-------------------------------- MODULE Build --------------------------------
(* The build tool runs scripts one after another. Every script starts with   *)
(* a fresh state; a statement that fails ends its script and the whole run,  *)
(* unless the script catches the error. What a script leaves unfinished      *)
(* stays on disk as it was: a single package not ready, a split one with     *)
(* the table of its last flush.                                              *)
(* A script is [kind, at, q]: "ok", "absent" or "syntax"; how its path is    *)
(* given; its statements. A statement is an operation of Lua.tla with a flag *)
(* try (the script catches the error and logs how it went), or              *)
(*   log    write a line to the log                                          *)
(*   where  log whether scrdir, bindir and tmpdir are right                  *)
(*   set    set a global variable        get   log whether it is set         *)
(*   fail   raise an error                                                   *)
EXTENDS Lua

Start(disk) == [S |-> Fresh @@ [disk |-> disk], log |-> <<>>, on |-> TRUE, set |-> FALSE]
Line(R, s) == [R EXCEPT !.log = Append(@, s)]
Stop(R) == [R EXCEPT !.log = Append(@, "err"), !.on = FALSE]
AdOf(st) == [fid |-> "", fidb |-> "?", off |-> BaseOf(st) + st.dend, more |-> {}]
Stmt(env, R, s) ==
  CASE ~R.on -> R
    [] s.op = "log" -> Line(R, "@" \o s.a)
    [] s.op = "where" -> Line(R, "@scrdir bindir tmpdir")
    [] s.op = "set" -> [R EXCEPT !.set = TRUE]
    [] s.op = "get" -> Line(R, IF R.set THEN "@set" ELSE "@unset")
    [] s.op = "fail" -> Stop(R)
    [] OTHER -> LET o == Do(env, R.S, s, AdOf(R.S)) IN
         IF s.try THEN Line([R EXCEPT !.S = o.S], IF o.err = "" THEN "@yes" ELSE "@no")
         ELSE IF o.err # "" THEN Stop([R EXCEPT !.S = o.S])
         ELSE [R EXCEPT !.S = o.S]
\* the next script begins
Fresh2(R) == [R EXCEPT !.S = Fresh @@ [disk |-> R.S.disk], !.set = FALSE]
RECURSIVE Stmts(_, _, _)
Stmts(env, R, q) == IF q = <<>> THEN R ELSE Stmts(env, Stmt(env, R, Head(q)), Tail(q))
Script(env, R, x) == IF ~R.on THEN R ELSE IF x.kind # "ok" THEN Stop(R) ELSE Stmts(env, Fresh2(R), x.q)
RECURSIVE Scripts(_, _, _)
Scripts(env, R, q) == IF q = <<>> THEN R ELSE Scripts(env, Script(env, R, Head(q)), Tail(q))
Run(env, disk, q) == LET R == Scripts(env, Start(disk), q) IN [log |-> R.log, disk |-> R.S.disk, ok |-> R.on]
==============================================================================
