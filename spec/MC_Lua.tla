------------------------------- MODULE MC_Lua -------------------------------
EXTENDS Lua, Json, Randomization
CONSTANTS OpSet, Keys, Contents, Tagkeys, Vals, Autos, Secrets, Paths, Tables, MaxTab, MaxOps, Sim, Warm, Loaded, Hist
VARIABLES S, h

Len0(c) == CASE c = "c0" -> 0 [] c = "c1" -> 9 [] c = "c2" -> 40 [] OTHER -> 100
env == [len |-> [c \in Contents |-> Len0(c)],
        mime |-> [k \in Keys |-> [c \in Contents |-> [v |-> "mime", b |-> "smime"]]],
        dig |-> [c \in Contents |-> [s \in Secrets |-> [a \in Autos |-> a \o s \o c]]]]
P(k, v) == [k |-> k, v |-> v]
\* named tables of tags
TableOf(i) ==
  CASE i = "t0" -> <<>>
    [] i = "t1" -> <<P("comment", "abc")>>
    [] i = "t2" -> <<P("fid", "n300"), P("#200", "n5")>>
    [] i = "t3" -> <<P("author", "abc"), P("comment", "n5"), P("mime", "abc")>>
    [] i = "t4" -> <<P("crc32", "hex"), P("mtime", "ms"), P("md5", "empty")>>
    [] i = "t5" -> <<P("#200", "n5"), P("link", "abc"), P("version", "num"), P("label", "hex"), P("author", "n5")>>
    [] i = "t6" -> <<P("fid", "n256")>>      \* the next identifiers do not fit one byte, two bytes
    [] i = "t7" -> <<P("fid", "n65536")>>
    [] i = "bad1" -> <<P("comment", "abc"), P("fid", "abc")>>
    [] i = "bad2" -> <<P("bogus", "abc"), P("comment", "n5")>>
    [] i = "bad3" -> <<P("size", "n5")>>
    [] i = "bad4" -> <<P("#-1", "abc")>>
    [] i = "bad5" -> <<P("comment", "tbl")>>
    [] i = "bad6" -> <<P("comment", "toolong"), P("author", "abc")>>
    [] i = "bad7" -> <<P("fid", "neg")>>
    [] i = "bad8" -> <<P("#65541", "n5")>>     \* 65536 + 5
    [] i = "del1" -> <<P("comment", "tbl"), P("fid", "abc"), P("#200", "toolong")>>
E0 == [op |-> "", k |-> "", c |-> "", a |-> "", b |-> "", T |-> <<>>, mt |-> [v |-> "mt", b |-> "smt"]]
\* in simulation only a few values of each parameter are tried at a step
Few(X) == IF ~Sim \/ Len(h) > 1000 \/ Cardinality(X) < 3 THEN X ELSE RandomSubset(2, X)
On(o) == o \in OpSet
Ops(st) == UNION {
  {[E0 EXCEPT !.op = o] : o \in {"new", "append", "flush", "finalize", "getinfo"} \cap OpSet},
  IF On("begin") THEN {[E0 EXCEPT !.op = "begin", !.a = p, !.b = d] : p \in Paths \cup {"nodir"}, d \in {"", "on"}}
                      \cup {[E0 EXCEPT !.op = "begin", !.a = "p3", !.b = "nodir"]} ELSE {},
  IF On("load") THEN {[E0 EXCEPT !.op = "load", !.a = p, !.b = d] : p \in Paths \cup {"nodir", "pbad"}, d \in {"", "on", "dx"}} ELSE {},
  {[E0 EXCEPT !.op = o, !.k = k, !.c = c, !.T = TableOf(T)] : o \in {"putdata", "putfile"} \cap OpSet, k \in Few(Keys), c \in Few(Contents), T \in Few(Tables)},
  IF On("putfile") THEN {[E0 EXCEPT !.op = "putfile", !.k = k, !.c = c] : k \in Few(Keys), c \in {"absent", "dir"}} ELSE {},
  {[E0 EXCEPT !.op = o, !.k = k, !.a = a] : o \in {"rename", "putalias"} \cap OpSet, k \in Few(Keys), a \in Few(Keys)},
  IF On("renamedir") THEN {[E0 EXCEPT !.op = "renamedir", !.k = k, !.a = a, !.b = b] :
        k \in {"d", "x", "a", ""} \ (IF \E i \in 1..Len(st.tab) : Len(st.tab[i].k) > 12 THEN {""} ELSE {}),
        a \in {"d", "d/", "x", "", "b.txt"}, b \in {"", "true", "false"}} ELSE {},
  {[E0 EXCEPT !.op = o, !.k = k] : o \in {"delalias", "gettags"} \cap OpSet, k \in Few(Keys)},
  {[E0 EXCEPT !.op = o, !.k = k, !.a = a] : o \in {"hastag", "gettag", "deltag"} \cap OpSet, k \in Few(Keys), a \in Few(Tagkeys)},
  {[E0 EXCEPT !.op = o, !.k = k, !.a = a, !.b = v] : o \in {"settag", "addtag"} \cap OpSet, k \in Few(Keys), a \in Few(Tagkeys), v \in Few(Vals)},
  {[E0 EXCEPT !.op = o, !.k = k, !.T = TableOf(T)] : o \in {"settags", "addtags", "deltags"} \cap OpSet, k \in Few(Keys), T \in Few(Tables)},
  IF On("setupinfo") THEN {[E0 EXCEPT !.op = "setupinfo", !.T = TableOf(T)] : T \in Few(Tables)} ELSE {},
  IF On("label") THEN {[E0 EXCEPT !.op = "label", !.b = v] : v \in {"abc", "empty", "hex", "tbl", "nil"}} ELSE {},
  IF On("auto") THEN {[E0 EXCEPT !.op = "auto", !.a = a, !.b = v] : a \in Few(Autos), v \in {"on", "off"}} ELSE {},
  IF On("secret") THEN {[E0 EXCEPT !.op = "secret", !.a = v] : v \in Few(Secrets)} ELSE {}}
\* "on" is the data path belonging to a package path
Dat(e) == IF e.op \in {"begin", "load"} /\ e.b = "on" THEN [e EXCEPT !.b = e.a \o ".dat"] ELSE e

Fids(st) == {x.v : x \in UNION {st.tab[i].tags : i \in 1..Len(st.tab)}}
Ad(st) == [fid |-> "f" \o ToString(st.nd), fidb |-> "?", off |-> BaseOf(st) + st.dend, more |-> {}]
\* a warm start: a session with two files packed, or a package of them loaded again
K2 == CHOOSE q \in [1..2 -> Keys] : q[1] # q[2]
Prefix == <<[E0 EXCEPT !.op = "begin", !.a = "p1"],
            [E0 EXCEPT !.op = "putdata", !.k = K2[1], !.c = "c1", !.T = TableOf("t1")],
            [E0 EXCEPT !.op = "putdata", !.k = K2[2], !.c = "c1", !.T = TableOf("t3")]>>
          \o (IF Loaded THEN <<[E0 EXCEPT !.op = "finalize"], [E0 EXCEPT !.op = "new"], [E0 EXCEPT !.op = "load", !.a = "p1"]>> ELSE <<>>)
RECURSIVE RunAll(_, _)
RunAll(st, q) == IF q = <<>> THEN st ELSE RunAll(Do(env, st, Head(q), Ad(st)).S, Tail(q))
Init == IF Warm THEN h = Prefix /\ S = RunAll(New(Paths), Prefix) ELSE S = New(Paths) /\ h = <<>>
\* in simulation the kind of operation is chosen first, so that rare kinds are not drowned, and
\* kinds that lead nowhere in the state come less often
Weight(o) == IF o \in {"putdata", "putfile"} THEN IF S.open = "no" THEN 1 ELSE 10
             ELSE IF o = "begin" THEN IF S.open = "no" /\ S.tab = <<>> THEN 10 ELSE 1
             ELSE IF o = "load" THEN IF S.open = "no" /\ S.nd = 0 THEN 10 ELSE 1
             ELSE IF o = "append" THEN IF S.open = "no" THEN 10 ELSE 1
             ELSE IF o = "new" THEN IF S.open = "no" /\ Len(S.tab) > 1 THEN 4 ELSE 1
             ELSE IF o \in {"flush", "finalize", "delalias"} THEN IF Len(S.tab) > 1 THEN 4 ELSE 1
             ELSE IF S.open = "no" /\ S.tab = <<>> THEN 4 ELSE 7
Pick(o, K) == LET n == IF o \in {"putdata", "putfile"} /\ S.open # "no" THEN 3 ELSE 1 IN
              IF K = {} \/ RandomElement(1..10) > Weight(o) THEN {}
              ELSE RandomSubset(IF n < Cardinality(K) THEN n ELSE Cardinality(K), K)
Some(X) == IF ~Sim THEN X ELSE LET Y == UNION {Pick(o, {x \in X : x.op = o}) : o \in OpSet} IN IF Y = {} THEN RandomSubset(1, X) ELSE Y
Next == /\ Len(h) < MaxOps
        /\ \E e0 \in Some(Ops(S)) : LET e == Dat(e0) IN
             /\ Legal(S, e) = TRUE
             /\ LET o == Do(env, S, e, Ad(S)) IN S' = o.S /\ h' = Append(h, e)
Bound == Len(S.tab) <= MaxTab
Emit == IF Sim THEN (Len(h') = MaxOps /\ S'.nd >= 3 => PrintT("GEN " \o ToJson([ops |-> h']))) ELSE PrintT("GEN " \o ToJson([ops |-> h']))
\* with Hist, equal states are told apart by the way the package came to be held
Came == LET I == {i \in 1..Len(h) : h[i].op \in {"new", "begin", "load", "append"}} IN
        IF I = {} THEN "" ELSE h[CHOOSE i \in I : \A j \in I : j <= i].op
View == IF Hist THEN <<S, Came>> ELSE <<S, "">>
I1 == InvUnique(S)
I2 == InvTags(S)
I3 == InvOpen(S)
\* the files on disk change only by begin, append, flush and finalize, and then only those of the session
ActDisk == [][LET e == h'[Len(h')] IN
     /\ e.op \notin {"begin", "append", "flush", "finalize"} => S'.disk = S.disk
     /\ \A p \in Paths : p # S'.path => S'.disk[p] = S.disk[p]
     /\ e.op \in {"flush", "finalize"} /\ S'.disk # S.disk => S'.disk[S.path].tab = S.tab ]_<<S, h>>
\* packing needs a session, and automatic tags never replace given ones
ActPack == [][LET e == h'[Len(h')] IN
     /\ Len(S'.tab) > Len(S.tab) /\ e.op \in {"putdata", "putfile"} =>
          S.open # "no" /\ TableTags(e.T) \subseteq S'.tab[Len(S'.tab)].tags
     /\ e.op \in {"putdata", "putfile"} /\ Len(S'.tab) = Len(S.tab) => S' = S ]_<<S, h>>
=============================================================================
