------------------------------ MODULE MC_Format -----------------------------
(* Generated images: well-formed packages, and packages with one thing wrong *)
(* in an entry or in the header.                                             *)
EXTENDS Format, Json
CONSTANT Rich
VARIABLES d, done

T(t, v) == [t |-> t, v |-> v]
\* entries, given as lists of tags; data area is 64..74 (single) or 0..10 (split)
Good1 == <<T(1, <<70>>), T(2, <<3>>), T(3, <<97>>)>>
Good2 == <<T(1, <<74, 0>>), T(2, <<0, 0, 0, 0>>), T(3, <<100, 47, 98>>), T(110, <<1, 2>>)>>
Good3 == <<T(3, <<98>>), T(110, <<>>), T(2, <<10>>), T(1, <<64, 0, 0, 0, 0, 0, 0, 0>>)>>
GoodS == <<T(1, <<0>>), T(2, <<10>>), T(3, <<97>>)>>
Odd == {
  <<T(1, <<70>>), T(2, <<3>>), T(3, <<100, 92, 98>>)>>,               \* backslash
  <<T(1, <<70>>), T(2, <<3>>), T(3, <<>>)>>,                          \* empty name
  <<T(1, <<70>>), T(2, <<3>>)>>,                                      \* no name
  <<T(1, <<70>>), T(3, <<99>>)>>, <<T(2, <<3>>), T(3, <<99>>)>>,      \* no size, no offset
  <<T(1, <<70, 0, 0>>), T(2, <<3>>), T(3, <<99>>)>>,                  \* bad width
  <<T(1, <<70>>), T(2, <<>>), T(3, <<99>>)>>,
  <<T(1, <<74>>), T(2, <<1>>), T(3, <<99>>)>>,                        \* one beyond the end
  <<T(1, <<75>>), T(2, <<0>>), T(3, <<99>>)>>,
  <<T(1, <<63>>), T(2, <<1>>), T(3, <<99>>)>>,                        \* before the data
  <<T(1, <<70>>), T(2, <<255, 255, 255, 255, 255, 255, 255, 255>>), T(3, <<99>>)>>,
  <<T(1, <<70>>), T(2, <<250, 255, 255, 255, 255, 255, 255, 255>>), T(3, <<99>>)>>,   \* sum wraps around
  <<T(1, <<255, 255, 255, 255, 255, 255, 255, 255>>), T(2, <<80>>), T(3, <<99>>)>>,
  <<T(1, <<70>>), T(1, <<0, 200>>), T(2, <<3>>), T(3, <<99>>)>>,      \* repeated tags
  <<T(1, <<0, 200>>), T(1, <<70>>), T(2, <<3>>), T(3, <<99>>)>>,
  <<T(2, <<200>>), T(2, <<1>>), T(1, <<70>>), T(3, <<99>>)>>,
  <<T(1, <<70>>), T(2, <<3>>), T(3, <<97>>), T(3, <<99>>)>>,
  <<T(1, <<70>>), T(2, <<3>>), T(3, <<99>>), T(0, <<>>)>>,            \* identifier zero
  <<T(1, <<70>>), T(2, <<3>>), T(3, <<47, 97>>)>>, <<T(1, <<70>>), T(2, <<3>>), T(3, <<65>>)>> }
EntryLists == {<<>>, <<Good1>>, <<Good1, Good2>>, <<Good3, Good2, Good1>>, <<Good1, Good1>>, <<GoodS>>}
  \cup UNION {{<<o>>, <<Good1, o>>, <<o, Good2>>, <<Good2, o>>, <<o, o>>} : o \in Odd}
Infos == {<<>>, <<T(110, <<1>>)>>, <<T(110, <<>>), T(113, <<7, 8>>)>>}
\* header changes: field (0 - none) and bytes put at its place
Put8(b, i, v) == [j \in 1..Len(b) |-> IF j \in i..(i + Len(v) - 1) THEN v[j - i + 1] ELSE b[j]]
U64s == {<<0,0,0,0,0,0,0,0>>, <<1,0,0,0,0,0,0,0>>, <<64,0,0,0,0,0,0,0>>, <<75,0,0,0,0,0,0,0>>, <<9,0,0,0,0,0,0,0>>,
         <<255,255,255,255,255,255,255,255>>, <<255,255,255,255,255,255,255,127>>, <<0,0,0,0,1,0,0,0>>, <<0,0,0,4,0,0,0,0>>,
         <<192,255,255,255,255,255,255,255>>}
Heads == {[at |-> 0, v |-> <<>>], [at |-> 1, v |-> Build], [at |-> 2, v |-> <<105>>], [at |-> 24, v |-> <<33>>]}
  \cup {[at |-> f, v |-> v] : f \in {25, 33, 41, 49, 57}, v \in U64s}
\* changes at the end of the table: cut bytes and added bytes
Ends == {[cut |-> 0, add |-> a] : a \in {<<0>>, <<0, 0>>, <<7>>, <<1, 2, 3>>, <<3, 0>>, <<0, 0, 5, 0, 1, 1, 0, 3, 9>>,
                                        EncEntries(<<Good2>>), SubSeq(EncEntries(<<Good1>>), 1, Len(EncEntries(<<Good1>>)) - 2)}}
  \cup {[cut |-> c, add |-> <<>>] : c \in 1..(IF Rich THEN 60 ELSE 24)}
  \cup {[cut |-> 2, add |-> a] : a \in {<<255>>, <<1, 0>>, <<1, 0, 1>>, <<4, 0, 1, 0, 0, 0>>, <<255, 255>>, <<0, 1>>,
                                        <<3, 0, 1, 0, 0>>, EncEntries(<<Good2>>), EncEntries(<<Good2, Good3>>) }}
NoEnd == [cut |-> 0, add |-> <<>>]
Descs0 == {[info |-> i, E |-> E, n |-> 10, split |-> p, hd |-> [at |-> 0, v |-> <<>>]] : i \in Infos, E \in EntryLists, p \in BOOLEAN}
  \cup {[info |-> i, E |-> E, n |-> n, split |-> p, hd |-> x] : i \in {<<>>, <<T(110, <<1>>)>>},
        E \in {<<>>, <<Good1>>, <<GoodS>>} \cup (IF Rich THEN EntryLists ELSE {}), n \in {10} \cup (IF Rich THEN {0, 200} ELSE {}), p \in BOOLEAN, x \in Heads}
Descs == {[info |-> x.info, E |-> x.E, n |-> x.n, split |-> x.split, hd |-> x.hd, end |-> NoEnd] : x \in Descs0}
  \cup {[info |-> i, E |-> E, n |-> 10, split |-> p, hd |-> [at |-> 0, v |-> <<>>], end |-> e] : i \in {<<>>, <<T(110, <<1>>)>>},
         E \in {<<>>, <<Good1>>, <<Good2, Good3>>} \cup (IF Rich THEN EntryLists ELSE {}), p \in BOOLEAN, e \in Ends}
Image(x) == LET b == EncX(x.info, x.E, x.n, x.split, x.end.cut, x.end.add) IN IF x.hd.at = 0 THEN b ELSE Put8(b, x.hd.at, x.hd.v)

Init == d \in Descs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED d
Emit == PrintT("GEN " \o ToJson(Image(d)))

\* a package of plainly good entries opens to exactly what was encoded
Plain == \A i \in 1..Len(d.E) : d.E[i] \in {Good1, Good2, Good3}
RoundTrip == d.hd.at = 0 /\ d.end = NoEnd /\ ~d.split /\ Plain /\ (\A i, j \in 1..Len(d.E) : d.E[i] = d.E[j] => i = j) =>
   LET o == Open(Image(d)) IN
   /\ o.st = "ok" /\ o.v = "good" /\ o.info = EncTags(d.info)
   /\ Len(o.tab) = Len(d.E) /\ \A i \in 1..Len(d.E) : o.tab[i].raw = EncTags(d.E[i])
   /\ Quick(Image(d)).st = "ok"
\* whatever is opened is sound
Sound == LET b == Image(d)  o == Open(b)  h == Hdr(b) IN o.st = "ok" =>
   /\ \A i, j \in 1..Len(o.tab) : o.tab[i].k = o.tab[j].k => i = j
   /\ (h.do # Big /\ h.ds # Big) => \A i \in 1..Len(o.tab) : o.tab[i].o >= h.do /\ o.tab[i].o + o.tab[i].n <= h.do + h.ds
   /\ Quick(b).st = "ok" /\ Quick(b).info = o.info
=============================================================================
