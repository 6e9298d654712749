-------------------------------- MODULE Large -------------------------------
(* Packages beyond 32-bit positions. A number is a pair <<hi, lo>> with the  *)
(* value hi * 2^24 + lo, since the numbers of TLC have 32 bits. An entry has *)
(* a place (off), a length (n) and a salt; its bytes are zero but for marks  *)
(* of 8 bytes at places known from its length, each telling salt and number. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
B == 16777216
N0 == <<0, 0>>
Num(x) == <<x \div B, x % B>>
Add(a, b) == LET lo == a[2] + b[2] IN <<a[1] + b[1] + lo \div B, lo % B>>
Sub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + B - b[2]>>
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b) == ~Lt(b, a)
Head0 == Num(64)

\* places of the marks of a file of length n: begin, around 2 and 4 GiB, end
Places == <<N0, Sub(<<128, 0>>, Num(4096)), Sub(<<128, 0>>, Num(8)), <<128, 0>>, Sub(<<256, 0>>, Num(8)), <<256, 0>>, Add(<<256, 0>>, Num(4096))>>
Marks(n) == IF Lt(n, Num(16)) THEN (IF Le(Num(8), n) THEN <<N0>> ELSE <<>>)
            ELSE SelectSeq(Places, LAMBDA p : Le(Add(p, Num(16)), n)) \o <<Sub(n, Num(8))>>
MarkBytes(salt, i) == <<salt + 1, i, 170, 187, 204, 221, 238, i + salt>>
\* what 8 bytes read at p of a file give: the marks are apart from each other, reads fall on or between them
ReadAt(e, p) ==
  IF Le(e.n, p) THEN [k |-> 0, b |-> <<>>]
  ELSE LET ms == Marks(e.n)  on == {i \in 1..Len(ms) : ms[i] = p}
           b8 == IF on = {} THEN <<0, 0, 0, 0, 0, 0, 0, 0>> ELSE MarkBytes(e.salt, CHOOSE i \in on : TRUE)
           room == Sub(e.n, p) IN
       IF Lt(room, Num(8)) THEN [k |-> room[2], b |-> SubSeq(b8, 1, room[2])] ELSE [k |-> 8, b |-> b8]

(* The state: mode, table of entries, where the writer stands (end), and the *)
(* header as last written (st "none" or "pre" or "ok").                      *)
New(mode) == [mode |-> mode, tab |-> <<>>, end |-> IF mode = "split" THEN N0 ELSE Head0,
              st |-> "pre", dsize |-> N0, disk |-> <<>>, ds |-> N0]
Base(s) == IF s.mode = "split" THEN N0 ELSE Head0
Do(s, e) ==
  CASE e.op = "jump" -> [s EXCEPT !.end = Add(@, e.n)]
    [] e.op = "pack" -> [s EXCEPT !.tab = Append(@, [k |-> e.k, off |-> s.end, n |-> e.n, salt |-> e.salt]), !.end = Add(@, e.n),
                                  !.dsize = Sub(Add(s.end, e.n), Base(s))]
    [] e.op = "sync" -> [s EXCEPT !.disk = s.tab, !.ds = Sub(s.end, Base(s)), !.dsize = Sub(s.end, Base(s)), !.st = "ok"]
    \* a later session: the writer stands where the data ended
    [] e.op = "append" -> [s EXCEPT !.tab = s.disk, !.end = Add(Base(s), s.ds), !.dsize = s.ds]
=============================================================================
