----------------------------- MODULE MC_PathUtil -----------------------------
EXTENDS PathUtil, Json
CONSTANTS Kind, MaxLen
VARIABLES s, t
Alphabet == CASE Kind = "env" -> {"$", "{", "}", "%", "A", "B", "1", "/"}
              [] Kind = "str" -> {"/", "\\", ".", "a", "Z", "@"}
              [] OTHER -> {"/", ".", "a", "*", "?"}
E0 == [op |-> Kind, s |-> "", t |-> ""]
Grow(x) == {x \o c : c \in Alphabet}
\* single strings grow up to the bound; for pairs the second string grows after the first
Init == s = "" /\ t = ""
Pairs == Kind \in {"join", "match"}
Next == \/ Len(s) < MaxLen /\ t = "" /\ s' \in Grow(s) /\ t' = t
        \/ Pairs /\ Len(t) < MaxLen /\ t' \in Grow(t) /\ s' = s
Emit == PrintT("GEN " \o ToJson([op |-> Kind, s |-> s', t |-> t']))
map == ("A" :> "m$B") @@ ("AA" :> "")
env == ("A" :> "wrong") @@ ("B" :> "os%A%b") @@ ("A1" :> "longer value")
InvEnv == Kind = "env" =>
  /\ Envfmt(s, <<>>, <<>>) = {s}                       \* nothing known, nothing changed
  /\ Cardinality(Envfmt(s, map, env)) \in 1..2
  /\ Envfmt(s, map, env) # {s} => (\E i \in 1..Len(s) : At(s, i) \in {"$", "%"})
InvStr == Kind = "str" =>
  /\ ToKey(s) = ToLower(ToSlash(s)) /\ ToKey(ToKey(s)) = ToKey(s)
  /\ Len(ToKey(s)) = Len(s) /\ ToLower(ToUpper(s)) = ToLower(s)
  /\ Clean(Clean(s)) = Clean(s) /\ SplitDir(s) \o SplitFile(s) = s
  /\ LET b == SplitFile(s) IN \E i \in 0..Len(b) : ExtOf(s) = From(b, i + 1)
InvPair == /\ Kind = "join" => (JoinClean(s, t) = "" <=> s = "" /\ t = "") /\ (s \notin {"", "."} /\ t \notin {"", "."} => Clean(JoinTwo(s, t)) = JoinClean(s, t))
           /\ Kind = "match" => (s = t => Match(s, t)) /\ ((Match(s, t) /\ (\A i \in 1..Len(s) : At(s, i) \notin {"*", "?"})) => s = t)
=============================================================================
