------------------------------ MODULE MC_Large ------------------------------
EXTENDS Large, Json
CONSTANTS SizeIds, JumpIds, MaxPacks, MaxOps
VARIABLES s, h
SizeOf(id) == CASE id = "0" -> N0 [] id = "3" -> Num(3) [] id = "20" -> Num(20) [] id = "2G-1" -> Sub(<<128, 0>>, Num(1))
                [] id = "2G" -> <<128, 0>> [] id = "4G-1" -> Sub(<<256, 0>>, Num(1)) [] id = "4G" -> <<256, 0>>
                [] id = "4G+1" -> Add(<<256, 0>>, Num(1)) [] id = "4G-84" -> Sub(<<256, 0>>, Num(84)) [] id = "2G-84" -> Sub(<<128, 0>>, Num(84))
                [] id = "5G" -> <<320, 77>> [] id = "1T" -> <<65536, 5>> [] id = "64K" -> Num(65536)
Init == /\ \E m \in {"single", "split"} : s = New(m) /\ h = <<[op |-> "begin", mode |-> m, n |-> N0, k |-> "", salt |-> 0]>>
Last == h[Len(h)].op
Op(o, n, k, salt) == [op |-> o, mode |-> s.mode, n |-> n, k |-> k, salt |-> salt]
Ops == {Op("jump", SizeOf(j), "", 0) : j \in IF Last \in {"jump"} THEN {} ELSE JumpIds}
       \cup {Op("pack", SizeOf(z), "f" \o ToString(Len(s.tab) + 1), Len(h)) : z \in IF Len(s.tab) < MaxPacks THEN SizeIds ELSE {}}
       \cup (IF Last \in {"sync", "jump"} THEN {} ELSE {Op("sync", N0, "", 0)})
       \cup (IF Last = "sync" THEN {Op("append", N0, "", 0)} ELSE {})
Next == \E e \in Ops : s' = Do(s, e) /\ h' = Append(h, e)
Bound == Len(h) <= MaxOps
View == s
Emit == (h'[Len(h')].op = "sync" /\ s'.tab # <<>>) => PrintT("GEN " \o ToJson([ops |-> h']))
\* extents never overlap, lie in the data area and in order; sizes of the written table are bounded by it
InvApart == /\ \A i, j \in 1..Len(s.tab) : i < j => Le(Add(s.tab[i].off, s.tab[i].n), s.tab[j].off)
            /\ \A i \in 1..Len(s.tab) : Le(Base(s), s.tab[i].off) /\ Le(Add(s.tab[i].off, s.tab[i].n), s.end)
InvDisk == \A i \in 1..Len(s.disk) : Le(Add(s.disk[i].off, s.disk[i].n), Add(Base(s), s.ds))
=============================================================================
