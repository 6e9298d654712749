-------------------------------- MODULE Conc --------------------------------
(* Several threads working with one package. The guarantee is that every     *)
(* call takes effect at one instant between its begin and its return, so a   *)
(* package under concurrent use is a configuration: the table, the table of  *)
(* the last complete sync, and what is known of the calls under way. An      *)
(* observer of begins, returns and openings of the written files keeps the   *)
(* set of all configurations that explain what was seen; the set must not    *)
(* become empty.                                                             *)
(* An entry: n - name, c - content, f - 1 when it has the times of a file.   *)
(* A call: k - kind, n - name, c - content (or new name), bad - its source   *)
(* fails (or a renaming of a folder skips names that exist).                 *)
(* A pending call is "wait" (no effect yet), "done" with a result, or "half":*)
(* a sync that has collected the table and not yet put it in the place of    *)
(* the last one, or a renaming or aliasing that has chosen its files and     *)
(* deals with them one by one: the old name is taken away, then the new one  *)
(* is put (those that read or delete may come between, packing and syncing   *)
(* may not). A file deleted meanwhile does not come back.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Nothing == "-"
Names(tab) == {tab[i].n : i \in 1..Len(tab)}
NameSeq(tab) == [i \in 1..Len(tab) |-> tab[i].n]
At(tab, n) == CHOOSE i \in 1..Len(tab) : tab[i].n = n
Without(tab, n) == SelectSeq(tab, LAMBDA x : x.n # n)
Res(r, v) == [r |-> r, v |-> v]

New(tab, disk) == {[tab |-> tab, disk |-> disk, pend |-> <<>>]}       \* pend: function of thread ids
Idle(c, th) == th \notin DOMAIN c.pend
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Pend(st, call, res) == [st |-> st, call |-> call, res |-> res]

HalfOf(c, kinds) == \E x \in DOMAIN c.pend : c.pend[x].st = "half" /\ c.pend[x].call.k \in kinds
Moves == {"rename", "rendir", "alias"}
Changes == {"pack", "file", "sync", "rename", "rendir", "alias"}
InDir(n, d) == Len(n) > Len(d) /\ SubSeq(n, 1, Len(d) + 1) = d \o "/"
MoveTo(n, k) == IF k.k = "rendir" THEN k.c \o SubSeq(n, Len(k.n) + 1, Len(n)) ELSE k.c

\* a renaming has the files v still to move ("next"), or has taken the first of them away ("move")
MoveOn(c, th, v, r) == [c EXCEPT !.pend = Upd(@, th, Pend("half", c.pend[th].call, Res(r, v)))]
MoveNext(c, th, v) ==
  LET k == c.pend[th].call
      Ret(r) == [c EXCEPT !.pend = Upd(@, th, Pend("done", k, Res(r, <<>>)))] IN
  IF v = <<>> THEN Ret("ok")
  ELSE IF MoveTo(v[1].n, k) \in Names(c.tab) THEN (IF k.bad THEN MoveOn(c, th, Tail(v), "next") ELSE Ret("exist"))
  ELSE IF k.k = "alias" THEN MoveOn([c EXCEPT !.tab = Append(@, [v[1] EXCEPT !.n = k.c])], th, Tail(v), "next")
  ELSE IF v[1].n \notin Names(c.tab) THEN (IF k.k = "rename" THEN Ret("err") ELSE MoveOn(c, th, Tail(v), "next"))
  ELSE MoveOn([c EXCEPT !.tab = Without(@, v[1].n)], th, v, "move")

\* the results of one effect of a waiting (or half done) call in configuration c
Effects(c, th) ==
  LET p == c.pend[th]  k == p.call
      Ret(cc, r, v) == [cc EXCEPT !.pend = Upd(@, th, Pend("done", k, Res(r, v)))]
  IN
  IF p.st = "half" /\ k.k = "sync" THEN {Ret([c EXCEPT !.disk = [st |-> "ok", tab |-> p.res.v]], "ok", <<>>)}
  ELSE IF p.st = "half" THEN
    LET v == p.res.v IN
    IF p.res.r = "next" THEN {MoveNext(c, th, v)}
    ELSE {MoveOn([c EXCEPT !.tab = Append(@, [v[1] EXCEPT !.n = MoveTo(v[1].n, k)])], th, Tail(v), "next")}
  ELSE IF p.st = "done" \/ (k.k \in Changes /\ HalfOf(c, Moves)) THEN {}
  ELSE CASE k.k \in {"pack", "file"} ->
              IF k.bad THEN {Ret(c, "err", <<>>)} \cup (IF k.n \in Names(c.tab) THEN {Ret(c, "exist", <<>>)} ELSE {})
              ELSE IF k.n \in Names(c.tab) THEN {Ret(c, "exist", <<>>)}
              ELSE {Ret([c EXCEPT !.tab = Append(@, [n |-> k.n, c |-> k.c, f |-> IF k.k = "file" THEN 1 ELSE 0])], "ok", <<>>)}
         [] k.k = "sync" -> \* one sync at a time
              IF HalfOf(c, {"sync"}) THEN {}
              ELSE {[c EXCEPT !.pend = Upd(@, th, Pend("half", k, Res("", c.tab)))]}
         [] k.k \in {"rename", "alias"} ->
              IF k.n \notin Names(c.tab) THEN {Ret(c, "err", <<>>)}
              ELSE {MoveOn(c, th, <<c.tab[At(c.tab, k.n)]>>, "next")}
         [] k.k = "rendir" -> {MoveOn(c, th, SelectSeq(c.tab, LAMBDA x : InDir(x.n, k.n)), "next")}
         [] k.k = "has"  -> {Ret(c, IF k.n \in Names(c.tab) THEN "yes" ELSE "no", <<>>)}
         [] k.k = "enum" -> {Ret(c, "ok", NameSeq(c.tab))}
         [] k.k = "num"  -> {Ret(c, "ok", <<ToString(Len(c.tab))>>)}
         [] k.k = "del"  -> IF k.n \in Names(c.tab) THEN {Ret([c EXCEPT !.tab = Without(@, k.n)], "yes", <<>>)}
                            ELSE {Ret(c, "no", <<>>)}

\* all configurations reachable by effects of pending calls
RECURSIVE Close(_, _)
Close(C, F) == LET D == UNION {UNION {Effects(c, th) : th \in DOMAIN c.pend} : c \in F} \ C IN
               IF D = {} THEN C ELSE Close(C \cup D, D)
Closure(C) == Close(C, C)
\* the sets of configurations are kept closed under effects; a return only selects
Begin(C, th, call) == Closure({[c EXCEPT !.pend = Upd(@, th, Pend("wait", call, Res("", <<>>)))] : c \in C})
Return(C, th, r) == {[c EXCEPT !.pend = Drop(@, th)] : c \in {d \in C : d.pend[th].st = "done" /\ d.pend[th].res = r}}
See(C, disk) == Closure({c \in C : c.disk = disk})
SeeTab(C, tab) == Closure({c \in C : c.tab = tab})
=============================================================================
