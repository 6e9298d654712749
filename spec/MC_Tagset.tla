----------------------------- MODULE MC_Tagset ------------------------------
(* Exhaustive exploration of the tag set model within small constants; every *)
(* transition is printed as a test for the implementation.                   *)
EXTENDS Tagset, Json
CONSTANTS Tids, Vals, MaxLen, MaxOps, UsePut
VARIABLES s, h, last

Ops ==
  LET upd == {[op |-> o, h |-> x, t |-> t, v |-> v, t2 |-> 0] :
                 o \in (IF UsePut THEN {"put", "set", "add"} ELSE {"set", "add"}),
                 x \in Handles, t \in Tids, v \in Vals}
      qry == {[op |-> o, h |-> x, t |-> t, v |-> "", t2 |-> 0] :
                 o \in {"del", "get", "has"}, x \in Handles, t \in Tids}
      frm == {[op |-> "setfrom", h |-> x, t |-> t, v |-> "", t2 |-> u] :
                 x \in Handles, t \in Tids, u \in Tids}
      oth == {[op |-> o, h |-> x, t |-> 0, v |-> "", t2 |-> 0] :
                 o \in {"copy", "num"}, x \in Handles}
  IN upd \cup qry \cup frm \cup oth

Init == s = [x \in Handles |-> <<>>] /\ h = <<>> /\ last = [op |-> "init"]
Next == \E e \in Ops : \E o \in Do(s, e) :
          /\ e.op = "setfrom" => HasL(s[e.h], e.t2)
          /\ s' = o.s /\ h' = Append(h, e) /\ last' = [op |-> e, r |-> o.r, s0 |-> s]
Bound == \A x \in Handles : Len(s[x]) <= MaxLen
Depth == Len(h) <= MaxOps
Emit == PrintT("GEN " \o ToJson(h'))
View == s

InvType == TypeOK(s)
\* without raw appending, identifiers stay unique
InvUniq == (~UsePut) => \A x \in Handles : Uniq(s[x])
\* every operation leaves all other tags, and the other set, alone
ActOthers == [][ LET e == h'[Len(h')] IN
    /\ e.op # "copy" => \A x \in Handles \ {e.h} : s'[x] = s[x]
    /\ e.op # "copy" => LET F(L) == SelectSeq(L, LAMBDA g : g.t # e.t) IN
         F(s'[e.h]) = F(s[e.h]) ]_<<s, h, last>>
=============================================================================
