-------------------------------- MODULE Format ------------------------------
(* The package format, byte by byte: header, package information, table of   *)
(* tag sets. Images are sequences of bytes. 64-bit numbers are exact below   *)
(* Big and Big otherwise.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Big == 16777216
Ready == <<87,104,105,114,108,119,105,110,100,32,51,46,52,32,80,97,99,107,97,103,101,32,32,32>>
Build == <<87,104,105,114,108,119,105,110,100,32,51,46,52,32,80,114,101,98,117,105,108,100,32,32>>
TOff == 1
TSize == 2
TPath == 3

U16(b, i) == b[i] + 256 * b[i + 1]
\* little-endian number of w bytes at i
UN(b, i, w) ==
  IF \E j \in 4..w : b[i + j - 1] # 0 THEN Big
  ELSE b[i] + (IF w > 1 THEN 256 * b[i + 1] ELSE 0) + (IF w > 2 THEN 65536 * b[i + 2] ELSE 0)

Hdr(b) == [sign |-> SubSeq(b, 1, 24), cnt |-> UN(b, 25, 8), fo |-> UN(b, 33, 8), fs |-> UN(b, 41, 8),
           do |-> UN(b, 49, 8), ds |-> UN(b, 57, 8)]

\* state class by the header alone
Sign(h) == IF h.sign = Ready THEN "ok"
           ELSE IF h.sign = Build THEN (IF h.do # 0 THEN "notready" ELSE "ok")
           ELSE "badsign"

\* the tags of b[i..j]: [ok, T] with T = sequence of [t, from, to]
RECURSIVE TagsFrom(_, _, _, _)
TagsFrom(b, i, j, acc) ==
  IF i = j + 1 THEN [ok |-> TRUE, T |-> acc]
  ELSE IF i + 3 > j THEN [ok |-> FALSE, T |-> acc]
  ELSE LET n == U16(b, i + 2) IN
       IF i + 3 + n > j THEN [ok |-> FALSE, T |-> acc]
       ELSE TagsFrom(b, i + 4 + n, j, Append(acc, [t |-> U16(b, i), from |-> i + 4, to |-> i + 3 + n]))
Tags(b, i, j) == TagsFrom(b, i, j, <<>>)

First(T, t) == LET I == {k \in 1..Len(T) : T[k].t = t} IN
               IF I = {} THEN 0 ELSE CHOOSE k \in I : \A m \in I : k <= m
Twice(T, t) == Cardinality({k \in 1..Len(T) : T[k].t = t}) > 1
Width(x) == x.to - x.from + 1

SlashB(q) == [i \in 1..Len(q) |-> IF q[i] = 92 THEN 47 ELSE q[i]]

(* One entry b[i..j] against the data area of header h and the names so far. *)
(* v: "good", "bad", or "any" where the format leaves it open.               *)
Entry(b, i, j, h, names) ==
  LET g == Tags(b, i, j)  T == g.T
      po == First(T, TOff)  ps == First(T, TSize)  pp == First(T, TPath)
      bad == [v |-> "bad", k |-> <<>>, o |-> 0, n |-> 0, raw |-> <<>>]
  IN IF ~g.ok \/ po = 0 \/ ps = 0 \/ pp = 0 THEN bad
     ELSE IF Width(T[po]) \notin {1, 2, 4, 8} \/ Width(T[ps]) \notin {1, 2, 4, 8} THEN bad
     ELSE LET o == UN(b, T[po].from, Width(T[po]))
              n == UN(b, T[ps].from, Width(T[ps]))
              k == SlashB(SubSeq(b, T[pp].from, T[pp].to))
              open == \/ Twice(T, TOff) \/ Twice(T, TSize) \/ Twice(T, TPath) \/ k = <<>>
                      \/ h.do = Big \/ h.ds = Big
          IN IF k \in names THEN bad
             ELSE IF h.do # Big /\ h.ds # Big /\ (o < h.do \/ o > h.do + h.ds \/ o + n > h.do + h.ds) THEN bad
             ELSE [v |-> IF open THEN "any" ELSE "good", k |-> k, o |-> o, n |-> n, raw |-> SubSeq(b, i, j)]

Bad == [v |-> "bad", tab |-> <<>>, info |-> <<>>, end |-> 0]

\* entries of b from i, not beyond `last`; end: the place after the end marker
RECURSIVE EntriesFrom(_, _, _, _, _, _, _, _)
EntriesFrom(b, i, last, h, tab, names, v, info) ==
  IF i + 1 > last THEN Bad
  ELSE LET l == U16(b, i) IN
    IF l = 0 THEN [v |-> v, tab |-> tab, info |-> info, end |-> i + 2]
    ELSE IF i + 1 + l > last THEN Bad
    ELSE LET e == Entry(b, i + 2, i + 1 + l, h, names) IN
      IF e.v = "bad" THEN Bad
      ELSE EntriesFrom(b, i + 2 + l, last, h, Append(tab, [k |-> e.k, o |-> e.o, n |-> e.n, raw |-> e.raw]),
                       names \cup {e.k}, IF e.v = "any" THEN "any" ELSE v, info)

\* the information record at i
Info(b, i, last) ==
  IF i + 1 > last THEN [ok |-> FALSE, raw |-> <<>>]
  ELSE LET l == U16(b, i) IN
    IF i + 1 + l > last \/ ~Tags(b, i + 2, i + 1 + l).ok THEN [ok |-> FALSE, raw |-> <<>>]
    ELSE [ok |-> TRUE, raw |-> SubSeq(b, i + 2, i + 1 + l)]

\* a table at i, not beyond `last`
Table(b, i, last, h) ==
  LET f == Info(b, i, last) IN
  IF ~f.ok THEN Bad ELSE EntriesFrom(b, i + 2 + Len(f.raw), last, h, <<>>, {}, "good", f.raw)

(* What opening image b must give: [st, v, tab, info]; st is "ok" or an      *)
(* error class; v = "any" allows an error instead of the table.              *)
NoTab(st) == [st |-> st, v |-> "good", tab |-> <<>>, info |-> <<>>]
Open(b) ==
  IF Len(b) < 64 THEN NoTab("err")
  ELSE LET h == Hdr(b) IN
    IF Sign(h) # "ok" THEN NoTab(Sign(h))
    ELSE IF h.fs = 0 THEN [st |-> "ok", v |-> IF h.cnt # 0 \/ h.fo > Len(b) THEN "any" ELSE "good", tab |-> <<>>, info |-> <<>>]
    ELSE IF h.fo = Big \/ h.fs = Big \/ h.fo + h.fs > Len(b) THEN NoTab("err")
    ELSE LET t == Table(b, h.fo + 1, h.fo + h.fs, h) IN
      IF t.v = "bad" \/ t.end # h.fo + h.fs + 1 THEN NoTab("err")
      ELSE [st |-> "ok", v |-> IF h.cnt # Len(t.tab) \/ h.fo < 64 THEN "any" ELSE t.v, tab |-> t.tab, info |-> t.info]

(* What the quick information query must give.                               *)
Quick(b) ==
  LET no(st) == [st |-> st, v |-> "good", info |-> <<>>] IN
  IF Len(b) < 64 THEN no("err")
  ELSE LET h == Hdr(b) IN
    IF Sign(h) # "ok" THEN no(Sign(h))
    ELSE IF h.fs = 0 THEN [st |-> "ok", v |-> IF h.cnt # 0 \/ h.fo > Len(b) THEN "any" ELSE "good", info |-> <<>>]
    ELSE IF h.fo = Big \/ h.fs = Big \/ h.fo + h.fs > Len(b) THEN no("err")
    ELSE LET f == Info(b, h.fo + 1, h.fo + h.fs) IN
      IF ~f.ok THEN no("err")
      ELSE [st |-> "ok", v |-> IF h.cnt > h.fs \div 16 \/ h.fo < 64 THEN "any" ELSE "good", info |-> f.raw]

(* ---- encoding, for generated images and the round trip theorem ----        *)
B16(n) == <<n % 256, n \div 256>>
B64(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>
EncTag(t, v) == B16(t) \o B16(Len(v)) \o v
RECURSIVE EncTags(_)
EncTags(L) == IF L = <<>> THEN <<>> ELSE EncTag(L[1].t, L[1].v) \o EncTags(Tail(L))
RECURSIVE EncEntries(_)
EncEntries(E) == IF E = <<>> THEN B16(0) ELSE LET x == EncTags(E[1]) IN B16(Len(x)) \o x \o EncEntries(Tail(E))
EncTable(info, E) == LET x == EncTags(info) IN B16(Len(x)) \o x \o EncEntries(E)
Fill(n) == [i \in 1..n |-> 238]
\* a package image with `n` bytes of data before its table; `cut` last bytes of the table are
\* left out and `add` is put after it, the header counts both
EncX(info, E, n, split, cut, add) ==
  LET t0 == EncTable(info, E)
      t == SubSeq(t0, 1, Len(t0) - (IF cut > Len(t0) THEN Len(t0) ELSE cut)) \o add IN
  IF split THEN Ready \o B64(Len(E)) \o B64(64) \o B64(Len(t)) \o B64(0) \o B64(n) \o t
  ELSE Ready \o B64(Len(E)) \o B64(64 + n) \o B64(Len(t)) \o B64(64) \o B64(n) \o Fill(n) \o t
Enc(info, E, n, split) == EncX(info, E, n, split, 0, <<>>)
=============================================================================
