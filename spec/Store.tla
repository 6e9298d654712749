-------------------------------- MODULE Store -------------------------------
(* The life cycle of one wpk package: what the writer holds in memory, what  *)
(* is on disk, and what a reader may see at any moment.                      *)
(*                                                                           *)
(* An entry is [k, c, d, tags]: full name, content identifier, identity of   *)
(* the packing call that stored the data (shared by aliases), and the tags   *)
(* beyond offset, size and path, in order.                                   *)
(* A disk value is [st, tab, info]: st is "ok" (opens), "notready" or        *)
(* "absent" (no package yet: any error).                                     *)
(* hist has one record per operation: the disk value after it and the set of *)
(* values passed through within it. A reader that looks at the files between *)
(* two moments may see only values current at some moment in between.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Slash(k) == LET RECURSIVE F(_) F(i) ==
                  IF i > Len(k) THEN "" ELSE
                  (IF SubSeq(k, i, i) = "\\" THEN "/" ELSE SubSeq(k, i, i)) \o F(i + 1)
            IN F(1)

Disk(st, tab, info) == [st |-> st, tab |-> tab, info |-> info]
Absent == Disk("absent", <<>>, <<>>)

New(mode) == [mode |-> mode, phase |-> "none", tab |-> <<>>, info |-> <<>>,
              disk |-> Absent, hist |-> <<[mid |-> {}, now |-> Absent]>>, nd |-> 0, held |-> <<>>, dirty |-> FALSE]

Pos(T, k) == LET I == {i \in 1..Len(T) : T[i].k = k} IN
             IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Has(T, k) == Pos(T, k) # 0
Cut(T, i) == SubSeq(T, 1, i - 1) \o SubSeq(T, i + 1, Len(T))

TPos(L, t) == LET I == {i \in 1..Len(L) : L[i].t = t} IN
              IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
TSet(L, t, v) == LET i == TPos(L, t) IN
  IF i = 0 THEN Append(L, [t |-> t, v |-> v]) ELSE [L EXCEPT ![i].v = v]
TDel(L, t) == LET i == TPos(L, t) IN
  IF i = 0 THEN L ELSE SubSeq(L, 1, i - 1) \o SubSeq(L, i + 1, Len(L))

\* the disk after an operation is recorded in the history
Tick(s, mid) == [s EXCEPT !.hist = Append(s.hist, [mid |-> mid, now |-> s.disk])]
RetMid(s, mid, err) == [s |-> Tick(s, mid), err |-> err]
Ret(s, err) == RetMid(s, {}, err)

(* ---- operations ----                                                      *)
Begin(s) ==    \* writes the header of an empty package; files of the old one are given up
  LET t == [s EXCEPT !.phase = "open", !.tab = <<>>, !.dirty = FALSE, !.held = <<>>] IN
  {Ret([t EXCEPT !.disk = IF s.mode = "split" THEN Disk("ok", <<>>, <<>>)
                          ELSE Disk("notready", <<>>, <<>>)], "")}

Put(s, k, c) ==
  IF Has(s.tab, Slash(k)) THEN {Ret(s, "exist")}
  ELSE {Ret([s EXCEPT !.tab = Append(@, [k |-> Slash(k), c |-> c, d |-> s.nd + 1, tags |-> <<>>]),
                      !.nd = @ + 1, !.dirty = TRUE], "")}

SetTag(s, k, t, v) ==
  LET i == Pos(s.tab, Slash(k)) IN
  IF i = 0 THEN {Ret(s, "notexist")}
  ELSE {Ret([s EXCEPT !.tab[i].tags = TSet(@, t, v)], "")}
DelTag(s, k, t) ==
  LET i == Pos(s.tab, Slash(k)) IN
  IF i = 0 THEN {Ret(s, "notexist")}
  ELSE {Ret([s EXCEPT !.tab[i].tags = TDel(@, t)], "")}

SetInfo(s, L) == {Ret([s EXCEPT !.info = L], "")}

Del(s, k) ==
  LET i == Pos(s.tab, Slash(k)) IN
  IF i = 0 THEN {Ret(s, "notexist")} ELSE {Ret([s EXCEPT !.tab = Cut(@, i)], "")}

Rename(s, a, b) ==
  LET i == Pos(s.tab, Slash(a)) IN
  IF i = 0 THEN {Ret(s, "notexist")}
  ELSE IF Has(s.tab, Slash(b)) THEN {Ret(s, "exist")}
  ELSE {Ret([s EXCEPT !.tab = Append(Cut(@, i), [s.tab[i] EXCEPT !.k = Slash(b)])], "")}

Alias(s, a, b) ==
  LET i == Pos(s.tab, Slash(a)) IN
  IF i = 0 THEN {Ret(s, "notexist")}
  ELSE IF Has(s.tab, Slash(b)) THEN {Ret(s, "exist")}
  ELSE {Ret([s EXCEPT !.tab = Append(@, [s.tab[i] EXCEPT !.k = Slash(b)])], "")}

\* The bytes a tag set takes in the table, which has two bytes for this number: values are given in hexadecimal
\* or, long ones, as "@" and their length; offset and size take one or two bytes each in the small packages long
\* values are tried with.
Digit(c) == CHOOSE d \in 0..9 : ToString(d) = c
VLen(v) == IF Len(v) > 0 /\ SubSeq(v, 1, 1) = "@"
           THEN LET RECURSIVE F(_) F(i) == IF i = 1 THEN 0 ELSE 10 * F(i - 1) + Digit(SubSeq(v, i, i)) IN F(Len(v))
           ELSE Len(v) \div 2
SumLen(L) == LET RECURSIVE F(_) F(i) == IF i = 0 THEN 0 ELSE F(i - 1) + 4 + VLen(L[i].v) IN F(Len(L))
Least(r) == SumLen(r.tags) + 5 + 5 + 4 + Len(r.k)
MaxLen == 65535
Storable(s) == SumLen(s.info) <= MaxLen /\ \A i \in 1..Len(s.tab) : Least(s.tab[i]) <= MaxLen
SurelyStorable(s) == SumLen(s.info) <= MaxLen /\ \A i \in 1..Len(s.tab) : Least(s.tab[i]) + 2 <= MaxLen

\* a table with a tag set that cannot be stored is refused
Sync(s) ==
  LET nr == Disk("notready", <<>>, <<>>)
      done == {RetMid([s EXCEPT !.disk = Disk("ok", s.tab, s.info), !.dirty = FALSE,
                                !.phase = IF s.mode = "single" THEN "synced" ELSE "open"],
                      IF s.mode = "single" THEN {nr} ELSE {}, "")}
      refused == {RetMid([s EXCEPT !.disk = d], {d}, "err") : d \in {s.disk} \cup IF s.mode = "single" THEN {nr} ELSE {}}
  IN (IF Storable(s) THEN done ELSE {}) \cup (IF SurelyStorable(s) THEN {} ELSE refused)

AppendPkg(s) ==
  {Ret([s EXCEPT !.phase = "open",
                 !.disk = IF s.mode = "single" THEN Disk("notready", <<>>, <<>>) ELSE @], "")}

\* a fresh object opened from disk takes over
Reopen(s) ==
  IF s.disk.st # "ok" THEN {Ret(s, s.disk.st)}
  ELSE {Ret([s EXCEPT !.tab = s.disk.tab, !.info = s.disk.info, !.phase = "closed", !.dirty = FALSE], "")}

\* open a nested file and keep the handle; t0 is what it returned when it was opened
Hold(s, k, t0) ==
  LET i == Pos(s.disk.tab, Slash(k)) IN
  IF s.disk.st # "ok" \/ i = 0 THEN {Ret(s, "notexist")}
  ELSE {Ret([s EXCEPT !.held = Append(@, IF t0 = "" THEN s.disk.tab[i].c ELSE t0)], "")}

(* The process stops inside operation o, before or after any of its writes;  *)
(* what is on disk then is taken over by a fresh object (split packages).    *)
RECURSIVE Do(_, _)
Stop(s, o) ==
  LET after == {x.s.disk : x \in Do(s, o)} IN
  UNION { {Ret([s EXCEPT !.disk = d, !.tab = d.tab, !.info = d.info, !.phase = "closed", !.dirty = FALSE], "")}
          : d \in {s.disk} \cup after }

(* A fault strikes inside operation o (an injected read, write or seek       *)
(* error): an error is reported and nothing is packed.  A failed begin,      *)
(* append or sync may leave the old or the new disk state.  An operation     *)
(* that does not write packages may cope with it and have its full effect.   *)
Fault(s, o) ==
  LET full == Do(s, o)
      disks == {s.disk} \cup {x.s.disk : x \in full}
               \cup (IF o.op \in {"begin", "append", "sync"} /\ s.mode = "single"
                     THEN {Disk("notready", <<>>, <<>>)} ELSE {})
               \cup (IF o.op = "begin" THEN {Absent} ELSE {})
  IN {[s |-> x.s, err |-> x.err] : x \in {y \in full : o.op \notin {"begin", "put", "append", "sync"} \/ y.err # ""}}
     \cup {Ret([s EXCEPT !.disk = d], "fault") : d \in disks}

Do(s, e) ==
  CASE e.op = "new"     -> {Ret([New(s.mode) EXCEPT !.disk = s.disk, !.hist = s.hist, !.nd = s.nd, !.held = s.held], "")}
    [] e.op = "begin"   -> Begin(s)
    [] e.op = "put"     -> Put(s, e.k, e.c)
    [] e.op = "settag"  -> SetTag(s, e.k, e.t, e.v)
    [] e.op = "deltag"  -> DelTag(s, e.k, e.t)
    [] e.op = "setinfo" -> SetInfo(s, e.L)
    [] e.op = "del"     -> Del(s, e.k)
    [] e.op = "rename"  -> Rename(s, e.k, e.k2)
    [] e.op = "alias"   -> Alias(s, e.k, e.k2)
    [] e.op = "sync"    -> Sync(s)
    [] e.op = "append"  -> AppendPkg(s)
    [] e.op = "reopen"  -> Reopen(s)
    [] e.op = "hold"    -> Hold(s, e.k, e.t0)
    [] e.op = "stop"    -> Stop(s, e.in)
    [] e.op = "fault"   -> Fault(s, e.in)

(* Which operations the protocol allows in a state. A single-file package    *)
(* may be packed only between begin/append and its sync.                     *)
Legal(s, e) ==
  CASE e.op = "new"    -> TRUE
    [] e.op = "begin"  -> s.phase \in {"none", "closed", "synced"}
    [] e.op = "put"    -> s.phase = "open"
    [] e.op = "sync"   -> s.phase \in {"open", "synced"}
    [] e.op = "append" -> s.phase # "none"
    [] e.op = "reopen" -> s.phase # "none"
    [] e.op \in {"settag", "deltag", "setinfo", "del", "rename", "alias"} -> s.phase # "none" \/ e.op = "setinfo"
    [] e.op = "hold"   -> s.disk.st = "ok" /\ Len(s.held) < 3
    [] e.op = "stop"   -> s.mode = "split" /\ e.in.op \in {"put", "sync", "append"}
    [] OTHER -> TRUE

(* ---- what readers may see ----                                            *)
\* values current between two moments `back` operations apart
Visible(s, back) == LET n == Len(s.hist) IN
  {s.hist[i].now : i \in (n - back)..n} \cup UNION {s.hist[i].mid : i \in (n - back + 1)..n}

(* ---- invariants of the design ----                                        *)
NamesUnique(T) == \A i, j \in 1..Len(T) : T[i].k = T[j].k => i = j
SameDataSameContent(T) == \A i, j \in 1..Len(T) : T[i].d = T[j].d => T[i].c = T[j].c
InvNames(s) == NamesUnique(s.tab) /\ NamesUnique(s.disk.tab)
InvData(s) == SameDataSameContent(s.tab \o s.disk.tab)
\* a split package that was ever readable stays readable
InvReadable(s) == s.mode = "split" =>
  \A i, j \in 1..Len(s.hist) : i < j /\ s.hist[i].now.st = "ok" =>
       s.hist[j].now.st = "ok" /\ \A d \in s.hist[j].mid : d.st = "ok"
=============================================================================
