------------------------------ MODULE MC_Reader -----------------------------
EXTENDS Reader, Json
CONSTANTS Sizes, Lens, Offs, Handles, MaxPos, MaxOps, Sim
VARIABLES s, h

NegOffs == {-1, -3}
E0 == [op |-> "", h |-> 1, n |-> 0, off |-> 0, wh |-> 0]
Ops == UNION {
   {[E0 EXCEPT !.op = "read", !.h = hh, !.n = n] : hh \in Handles, n \in Lens},
   {[E0 EXCEPT !.op = "readat", !.h = hh, !.n = n, !.off = o] : hh \in {1}, n \in Lens, o \in Offs \cup {-1}},
   {[E0 EXCEPT !.op = "seek", !.h = hh, !.off = o, !.wh = w] : hh \in Handles, o \in Offs \cup NegOffs, w \in {0, 1, 2}},
   {[E0 EXCEPT !.op = "seek", !.h = hh, !.wh = 3] : hh \in {1}},
   {[E0 EXCEPT !.op = x, !.h = hh] : x \in {"rest", "close", "stat", "whole"}, hh \in Handles}}
Init == h = <<>> /\ \E n \in Sizes : s = New(n, 0, TRUE)
Next == /\ Len(h) < MaxOps
        /\ \E e \in Ops : \E o \in Do(s, e) : s' = o.s /\ h' = Append(h, e)
Bound == s.pos[1] <= MaxPos /\ s.pos[2] <= MaxPos
Emit == IF Sim THEN (Len(h') = MaxOps => PrintT("GEN " \o ToJson([n |-> s.n, ops |-> h'])))
        ELSE PrintT("GEN " \o ToJson([n |-> s.n, ops |-> h']))
View == s
I1 == \A e \in Ops : \A o \in Do(s, e) : InWindow(s, o)
I2 == s.pos[1] >= 0 /\ s.pos[2] >= 0
\* reading on one handle never moves the other
ActCursor == [][ LET e == h'[Len(h')] IN s'.pos[3 - e.h] = s.pos[3 - e.h] ]_<<s, h>>
=============================================================================
