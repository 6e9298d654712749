-------------------------------- MODULE Reader ------------------------------
(* Reading one nested file: two handles with cursors on a window of n bytes. *)
(* Byte i of the file is Byte(salt, i); everything outside of the window has *)
(* other content. Results are [k, err, b, e, at, v]: bytes delivered, error  *)
(* class, the first and last eight delivered bytes, the place of longer data *)
(* in the file (-1: too short to tell), and a returned number.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Byte(salt, i) == ((i % 1009) * (i % 1013) + (i \div 7) + salt) % 256
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

New(n, salt, present) == [n |-> n, salt |-> salt, present |-> present, pos |-> <<0, 0>>]

\* r delivers exactly the bytes p..p+k-1
DataIs(s, r, p, k) ==
  LET m == Min2(k, 8) IN
  /\ r.k = k
  /\ r.b = [i \in 1..m |-> Byte(s.salt, p + i - 1)]
  /\ r.e = [i \in 1..m |-> Byte(s.salt, p + k - m + i - 1)]
  /\ (k > 16 => r.at = p)

\* outcomes: next state, data place and length, allowed errors, number
Out(s, p, k, errs, v) == {[s |-> s, p |-> p, k |-> k, errs |-> errs, v |-> v]}

Read(s, h, n) ==
  LET p == s.pos[h]  rest == Max2(0, s.n - p)  k == Min2(n, rest) IN
  IF n = 0 THEN Out(s, p, 0, IF rest = 0 THEN {"", "eof"} ELSE {""}, 0)
  ELSE IF rest = 0 THEN Out(s, p, 0, {"eof"}, 0)
  ELSE Out([s EXCEPT !.pos[h] = p + k], p, k, {""}, 0)

ReadAt(s, n, off) ==
  IF off < 0 THEN Out(s, 0, 0, {"err", "eof"}, 0)
  ELSE LET rest == Max2(0, s.n - off)  k == Min2(n, rest) IN
       IF n = 0 THEN Out(s, off, 0, IF rest = 0 THEN {"", "eof"} ELSE {""}, 0)
       ELSE Out(s, off, k, IF k < n THEN {"eof"} ELSE {""}, 0)

Seek(s, h, off, wh) ==
  LET base == CASE wh = 0 -> 0 [] wh = 1 -> s.pos[h] [] wh = 2 -> s.n [] OTHER -> 0
      t == base + off IN
  IF wh \notin {0, 1, 2} \/ t < 0 THEN Out(s, 0, 0, {"err"}, -1)
  ELSE Out([s EXCEPT !.pos[h] = t], 0, 0, {""}, t)

\* read to the end, in pieces
Rest(s, h) ==
  LET p == s.pos[h] IN
  Out([s EXCEPT !.pos[h] = Max2(p, s.n)], p, Max2(0, s.n - p), {""}, 0)

Whole(s) == IF s.present THEN Out(s, 0, s.n, {""}, 0) ELSE Out(s, 0, -1, {"err", "eof"}, 0)

Do(s, e) ==
  CASE e.op = "open"   -> Out([s EXCEPT !.pos[e.h] = 0], 0, 0, {""}, 0)
    [] e.op = "stat"   -> Out(s, 0, 0, {""}, s.n)
    [] e.op = "read"   -> Read(s, e.h, e.n)
    [] e.op = "readat" -> ReadAt(s, e.n, e.off)
    [] e.op = "seek"   -> Seek(s, e.h, e.off, e.wh)
    [] e.op = "rest"   -> Rest(s, e.h)
    [] e.op = "close"  -> Out([s EXCEPT !.pos[e.h] = 0], 0, 0, {""}, 0)   \* and opened again
    [] e.op = "whole"  -> Whole(s)

\* no outcome delivers a byte from outside of the window
InWindow(s, o) == o.k <= 0 \/ (o.p >= 0 /\ o.p + o.k <= s.n)
=============================================================================
