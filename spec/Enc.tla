--------------------------------- MODULE Enc --------------------------------
(* Typed values of tags and their bytes. Numbers are two's complement, least *)
(* significant byte first, as sequences of 0..255; a 64-bit value has eight. *)
(* A time is its Unix seconds (8 bytes) and nanoseconds below 10^9.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Zeros(n) == [i \in 1..n |-> 0]
Low(v, n) == SubSeq(v, 1, n)                        \* the n least significant bytes
Ext(b) == b \o Zeros(8 - Len(b))                    \* to 64 bits, unsigned
Fits(v, n) == \A i \in (n + 1)..Len(v) : v[i] = 0
Width(v) == IF Fits(v, 1) THEN 1 ELSE IF Fits(v, 2) THEN 2 ELSE IF Fits(v, 4) THEN 4 ELSE 8
\* v * k + c modulo 2^64, for k < 10^4, c < 10^6
MulAdd(v, k, c) == LET RECURSIVE F(_, _) F(i, carry) == IF i > 8 THEN <<>> ELSE
                         LET x == v[i] * k + carry IN <<x % 256>> \o F(i + 1, x \div 256)
                   IN F(1, c)
Nano(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
NanoOf(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]      \* for b[4] < 64
Milli(sec, ns) == MulAdd(sec, 1000, ns \div 1000000)
\* seconds so near to now that milliseconds do not overflow
Near(sec) == (sec[8] = 0 /\ sec[7] < 16) \/ (sec[8] = 255 /\ sec[7] >= 240)

\* seconds of some 64-bit number of milliseconds
Thousandth(sec) == (sec[8] = 0 /\ sec[7] < 33) \/ (sec[8] = 255 /\ sec[7] >= 223)

Kinds == {"str", "bool", "byte", "u16", "u32", "u64", "uint", "num", "time", "unixms"}
Size(kind) == CASE kind = "byte" -> 1 [] kind = "u16" -> 2 [] kind = "u32" -> 4 [] OTHER -> 8

\* the bytes of a value; "any" where the value is beyond the encoding
Enc(kind, v, ns) ==
  CASE kind = "str"  -> v
    [] kind = "bool" -> <<IF v[1] = 0 THEN 0 ELSE 1>>
    [] kind \in {"byte", "u16", "u32", "u64", "num"} -> Low(v, Size(kind))
    [] kind = "uint" -> Low(v, Width(v))
    [] kind \in {"uint1", "uint2", "uint4", "uint8"} ->
         Low(v, CASE kind = "uint1" -> 1 [] kind = "uint2" -> 2 [] kind = "uint4" -> 4 [] OTHER -> 8)
    [] kind = "time" -> v \o Nano(ns)
    [] kind = "unixms" -> Milli(v, ns)

No == [ok |-> FALSE, v |-> <<>>, ns |-> 0]
Yes(v) == [ok |-> TRUE, v |-> v, ns |-> 0]
\* does the answer r of a getter conform to the bytes b
DecOK(kind, b, r) ==
  CASE kind = "str"  -> r = Yes(b)
    [] kind = "bool" -> IF Len(b) = 1 THEN r = Yes(<<IF b[1] = 0 THEN 0 ELSE 1>>) ELSE ~r.ok
    [] kind \in {"byte", "u16", "u32", "u64", "num"} ->
         IF Len(b) = Size(kind) THEN r = Yes(b) ELSE ~r.ok
    [] kind = "uint" -> IF Len(b) \in {1, 2, 4, 8} THEN r = Yes(Ext(b)) ELSE ~r.ok
    [] kind = "time" ->
         IF Len(b) = 12 THEN
           r.ok /\ (b[12] < 59 => r.v = Low(b, 8) /\ r.ns = NanoOf(SubSeq(b, 9, 12)))   \* below 10^9
         ELSE IF Len(b) = 8 THEN
           r.ok /\ Thousandth(r.v) /\ r.ns % 1000000 = 0 /\ r.ns < 1000000000 /\ Milli(r.v, r.ns) = b
         ELSE ~r.ok
    [] kind = "unixms" ->
         IF Len(b) = 8 THEN r = Yes(b)
         ELSE IF Len(b) = 12 THEN r.ok /\ (b[12] < 59 /\ Near(Low(b, 8)) => r.v = Milli(Low(b, 8), NanoOf(SubSeq(b, 9, 12))))
         ELSE ~r.ok
=============================================================================
