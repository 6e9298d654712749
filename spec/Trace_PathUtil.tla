---------------------------- MODULE Trace_PathUtil ---------------------------
EXTENDS PathUtil, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tabs
Want(e, tb) ==
  CASE e.op = "env" -> [nomap |-> Envfmt(e.s, <<>>, tb.env), map |-> Envfmt(e.s, tb.map, tb.env)]
    [] e.op = "str" -> [slash |-> ToSlash(e.s), lower |-> ToLower(e.s), upper |-> ToUpper(e.s), key |-> ToKey(e.s), name |-> PathName(e.s),
                        lslash |-> ToSlash(e.s), lname |-> PathName(e.s), clean |-> Clean(e.s), dir |-> Dir(e.s), base |-> Base(e.s), ext |-> ExtOf(e.s),
                        sdir |-> SplitDir(e.s), sfile |-> SplitFile(e.s), vol |-> ""]
    [] e.op = "join" -> [path |-> JoinTwo(e.s, e.t), file |-> JoinTwo(e.s, e.t), lua |-> JoinClean(e.s, e.t),
                         one |-> JoinClean(e.s, ""), three |-> JoinClean3(e.t, e.s, e.t), tmp |-> IF e.s \in {"", "."} THEN "" ELSE From(JoinTwo("t", e.s), 2)]
    [] e.op = "match" -> [lua |-> Match(e.s, e.t)]
    [] e.op = "hex" -> [hex |-> Hex(e.b), bin |-> e.b, bad |-> TRUE]
    [] e.op = "bytes" -> [slash |-> Bytes(SlB, e.b), lower |-> Bytes(LoB, e.b), upper |-> Bytes(UpB, e.b), key |-> Bytes(KeyB, e.b), same |-> TRUE]
    [] e.op = "milli" -> [back |-> e.v, at |-> e.v, bad |-> TRUE]
    [] e.op = "files" -> [n |-> 0]
    [] OTHER -> <<>>
N(e) == Len(e.names)
Files(e) ==
  /\ {e.r.all[i] : i \in 1..Len(e.r.all)} = {e.names[i] : i \in 1..N(e)} /\ Len(e.r.all) = N(e)
  /\ e.r.zero = e.r.all \/ {e.r.zero[i] : i \in 1..Len(e.r.zero)} = {e.names[i] : i \in 1..N(e)}
  /\ Len(e.r.some) = (IF e.n < N(e) THEN e.n ELSE N(e)) /\ Cardinality({e.r.some[i] : i \in 1..Len(e.r.some)}) = Len(e.r.some)
  /\ {e.r.some[i] : i \in 1..Len(e.r.some)} \subseteq {e.names[i] : i \in 1..N(e)}
  /\ {e.r.glob[i] : i \in 1..Len(e.r.glob)} = {e.names[i] : i \in {j \in 1..N(e) : Match(e.p, e.names[j])}}
  /\ e.r.isfile = <<TRUE, FALSE, TRUE, TRUE>> /\ e.r.isdir = <<FALSE, TRUE, TRUE, TRUE>>
  /\ ~e.r.isno[1] /\ ~e.r.isno[2] /\ \A i \in 3..Len(e.r.isno) : e.r.isno[i]
  /\ e.r.check = <<"b1", "b1">> /\ e.r.checkdir = <<"b1", "b0">> /\ e.r.absent[1] = "b0"
Good(e, tb) ==
  CASE e.op = "env" -> LET w == Want(e, tb) IN e.r.same /\ e.r.nomap \in w.nomap /\ e.r.map \in w.map /\ e.r.lua = e.r.nomap
    [] e.op = "str" -> e.r.same /\ LET w == Want(e, tb) IN \A k \in DOMAIN w : e.r[k] = w[k]
    [] e.op \in {"join", "match", "hex", "milli", "bytes"} -> LET w == Want(e, tb) IN \A k \in DOMAIN w : e.r[k] = w[k]
    [] e.op = "files" -> Files(e)
    [] OTHER -> FALSE
Fail(e, exp) == PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(exp))
Init == l = 1 /\ tabs = <<>>
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN tabs' = [env |-> e.env, map |-> e.map]
           ELSE /\ tabs' = tabs
                /\ ((e.r.crash = "" /\ Good(e, tabs) = TRUE) \/ (~(e.r.crash = "" /\ Good(e, tabs) = TRUE) /\ Fail(e, Want(e, tabs))))
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
