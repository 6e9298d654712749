------------------------------- MODULE Tagset -------------------------------
(* Tag sets of wpk as ordered lists of tags.                                 *)
(*                                                                           *)
(* A tag is [t |-> identifier, v |-> value token].  Value tokens are opaque  *)
(* strings (hexadecimal bytes for short values, length and digest for long   *)
(* ones), so the specification never depends on how the bytes are laid out.  *)
(* The state holds two tag sets, "a" and "b": everything is done on them     *)
(* alternately so that leaking between a set and its copy is visible.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Handles == {"a", "b"}

\* position of the first tag with identifier t, 0 when absent
Find(L, t) ==
  LET I == {i \in 1..Len(L) : L[i].t = t}
  IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

Tag(t, v) == [t |-> t, v |-> v]

PutL(L, t, v) == Append(L, Tag(t, v))
SetL(L, t, v) == LET i == Find(L, t) IN
  IF i = 0 THEN PutL(L, t, v) ELSE [L EXCEPT ![i].v = v]
AddL(L, t, v) == IF Find(L, t) = 0 THEN PutL(L, t, v) ELSE L
DelL(L, t) == LET i == Find(L, t) IN
  IF i = 0 THEN L ELSE SubSeq(L, 1, i - 1) \o SubSeq(L, i + 1, Len(L))
GetL(L, t) == LET i == Find(L, t) IN IF i = 0 THEN "" ELSE L[i].v
HasL(L, t) == Find(L, t) # 0

(* ---- operations ----                                                      *)
(* op: [op, h, t, v, t2]; the result r: [ok, v, n] plus the lists of both    *)
(* handles after the call.                                                   *)
Res(ok, v, n) == [ok |-> ok, v |-> v, n |-> n]
Out(s, r) == [s |-> s, r |-> r]

Do(s, e) ==
  LET L == s[e.h] IN
  CASE e.op = "put"  -> {Out([s EXCEPT ![e.h] = PutL(L, e.t, e.v)], Res(TRUE, "", 0))}
    [] e.op = "set"  -> {Out([s EXCEPT ![e.h] = SetL(L, e.t, e.v)], Res(~HasL(L, e.t), "", 0))}
    [] e.op = "add"  -> {Out([s EXCEPT ![e.h] = AddL(L, e.t, e.v)], Res(~HasL(L, e.t), "", 0))}
    [] e.op = "del"  -> {Out([s EXCEPT ![e.h] = DelL(L, e.t)], Res(HasL(L, e.t), "", 0))}
    [] e.op = "setfrom" ->   \* value taken from another tag of the same set
         {Out([s EXCEPT ![e.h] = SetL(L, e.t, GetL(L, e.t2))], Res(~HasL(L, e.t), "", 0))}
    [] e.op = "get"  -> {Out(s, Res(HasL(L, e.t), GetL(L, e.t), 0))}
    [] e.op = "has"  -> {Out(s, Res(HasL(L, e.t), "", 0))}
    [] e.op = "num"  -> {Out(s, Res(TRUE, "", Len(L)))}
    [] e.op = "copy" -> {Out([h \in Handles |-> L], Res(TRUE, "", 0))}

(* ---- damaged bytes ----                                                   *)
\* records readable from the bytes, and whether they end exactly at the end
U16(b, i) == b[i] + 256 * b[i + 1]
RECURSIVE Scan(_, _, _)
Scan(b, i, acc) ==
  IF i > Len(b) THEN [tags |-> acc, whole |-> TRUE]
  ELSE IF i + 3 > Len(b) THEN [tags |-> acc, whole |-> FALSE]
  ELSE LET n == U16(b, i + 2) IN
    IF i + 3 + n > Len(b) THEN [tags |-> acc, whole |-> FALSE]
    ELSE Scan(b, i + 4 + n, Append(acc, [t |-> U16(b, i), b |-> SubSeq(b, i + 4, i + 3 + n)]))

RawTids(d) == [i \in 1..Len(d.tags) |-> d.tags[i].t]
\* what each query reports on damaged bytes
RawRes(b, qt) ==
  LET d == Scan(b, 1, <<>>)
      I == {i \in 1..Len(d.tags) : d.tags[i].t = qt}
      f == IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
  IN [tags   |-> d.tags,
      failed |-> ~d.whole,
      num    |-> Len(d.tags),
      has    |-> f # 0,
      got    |-> f # 0,
      val    |-> IF f = 0 THEN <<>> ELSE d.tags[f].b,
      reset  |-> [t |-> 0, n |-> 0, v |-> <<>>]]      \* an iterator put back to its start has no tag

(* ---- properties of the model ----                                         *)
TypeOK(s) == \A h \in Handles : \A i \in 1..Len(s[h]) : DOMAIN s[h][i] = {"t", "v"}
Uniq(L) == \A i, j \in 1..Len(L) : L[i].t = L[j].t => i = j
=============================================================================
