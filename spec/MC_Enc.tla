------------------------------- MODULE MC_Enc -------------------------------
EXTENDS Enc, Json
CONSTANT Rich
VARIABLES t, done
Bit(k) == [i \in 1..8 |-> IF i = (k \div 8) + 1 THEN 2 ^ (k % 8) ELSE 0]
Ones(k) == [i \in 1..8 |-> IF i <= k \div 8 THEN 255 ELSE IF i = (k \div 8) + 1 THEN 2 ^ (k % 8) - 1 ELSE 0]
Neg(v) == LET RECURSIVE F(_, _) F(i, c) == IF i > 8 THEN <<>> ELSE
                LET x == (255 - v[i]) + c IN <<x % 256>> \o F(i + 1, x \div 256) IN F(1, 1)
Pat == {[i \in 1..8 |-> (37 * i + k) % 256] : k \in {0, 100, 200}} \cup {[i \in 1..8 |-> IF i % 2 = 0 THEN 255 ELSE 1]}
       \cup {<<a, b, c, d, a, b, c, d>> : a, b, c, d \in (IF Rich THEN {0, 1, 128, 255} ELSE {0, 255})}
U64 == {Bit(k) : k \in 0..63} \cup {Ones(k) : k \in 0..63} \cup {[i \in 1..8 |-> 255]} \cup Pat
Secs == {v \in U64 \cup {Neg(v) : v \in U64} : Near(v)}
NS == {0, 1, 999, 1000, 999999, 1000000, 1000001, 123456789, 500000000, 999000000, 999999999}
Strs == {<<>>, <<0>>, <<97>>, <<255, 0, 128>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, [i \in 1..300 |-> i % 256]}
Vals(kind) == CASE kind = "str" -> Strs
                [] kind = "bool" -> {<<0>>, <<1>>}
                [] kind \in {"byte", "u16", "u32"} -> {Low(v, Size(kind)) : v \in U64}
                [] kind = "uint1" -> {v \in U64 : Fits(v, 1)}
                [] kind = "uint2" -> {v \in U64 : Fits(v, 2)}
                [] kind = "uint4" -> {v \in U64 : Fits(v, 4)}
                [] OTHER -> U64
E0 == [op |-> "", kind |-> "", v |-> <<>>, ns |-> 0]
Encs == UNION {{[E0 EXCEPT !.op = "enc", !.kind = k, !.v = v] : v \in Vals(k)}
               : k \in {"str", "bool", "byte", "u16", "u32", "u64", "num", "uint", "uint1", "uint2", "uint4", "uint8"}}
        \cup {[E0 EXCEPT !.op = "enc", !.kind = k, !.v = s, !.ns = n] : k \in {"time", "unixms"}, s \in Secs, n \in NS}
Bytes == UNION {{Low(v \o v, n) : v \in Pat \cup {Zeros(8), Bit(7), Bit(63), Ones(63)} \cup {[i \in 1..8 |-> 255]}} : n \in 0..13}
         \cup {Low(v, 8) : v \in U64} \cup {Milli(s, n) : s \in Secs, n \in {0, 1000000, 999000000}} \cup {s \o Nano(n) : s \in Secs, n \in NS}
Decs == {[E0 EXCEPT !.op = "dec", !.v = b] : b \in Bytes}
Tests == Encs \cup Decs
Init == t \in Tests /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED t
Emit == done' => PrintT("GEN " \o ToJson(t))

\* what is stored is read back, by the matching getter only; unsized numbers take the fewest bytes
Back == t.op = "enc" =>
  LET b == Enc(t.kind, t.v, t.ns)
      g == IF t.kind \in {"uint1", "uint2", "uint4", "uint8"} THEN "uint" ELSE t.kind IN
  /\ (t.kind \notin {"time", "unixms"} => DecOK(g, b, Yes(IF g = "uint" THEN Ext(t.v) ELSE t.v)))
  /\ (t.kind = "time" => DecOK("time", b, [ok |-> TRUE, v |-> t.v, ns |-> t.ns]) /\ DecOK("unixms", b, Yes(Milli(t.v, t.ns))))
  /\ (t.kind = "unixms" => DecOK("time", b, [ok |-> TRUE, v |-> t.v, ns |-> (t.ns \div 1000000) * 1000000]))
  /\ (t.kind = "uint" => Len(b) \in {1, 2, 4, 8} /\ \A n \in {1, 2, 4} : n < Len(b) => ~Fits(t.v, n))
=============================================================================
