----------------------------- MODULE Trace_Tools -----------------------------
EXTENDS Tools, Enc, Json, IOUtils
CONSTANT Aspects      \* "extract", "pack", "times"
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, skip

\* a list of records with a field n as a function
Fun(q) == [n \in {q[i].n : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : q[i].n = n]]
Uniq(q) == Cardinality({q[i].n : i \in 1..Len(q)}) = Len(q)
Tree(q) == [p \in {Comps(q[i].n) : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : Comps(q[i].n) = p].c]
None == [st |-> "none", tab |-> <<>>]
Start == [src |-> [f \in {"f1", "f2"} |-> <<>>], pk |-> [p \in {"p1", "p2"} |-> None], dst |-> <<>>, there |-> FALSE]
\* programs other than the pack tool are given regular readable files only
Plain(src) == [f \in DOMAIN src |-> [n \in Of(src, f, {"file"}) |-> src[f][n]]]
SrcFor(s, e) == IF e.op = "pack" /\ e.how # "tool" THEN Plain(s.src) ELSE s.src

Allowed(v, done) == (v = "done" => done) /\ (v = "fail" => ~done)
\* the facts about the file that entry x was packed from
FactsOf(e, x) == {e.facts[i] : i \in {j \in 1..Len(e.facts) : e.facts[j].n = x.n /\ e.facts[j].kind \in {"file", "ln"}}}
MimeOK(o, x, F) == IF o.mime THEN x.hasmime /\ \E f \in F : x.mime = IF f.ext # "" THEN f.ext ELSE f.sniff ELSE ~x.hasmime
LinkOK(o, x, F) == IF o.link THEN x.haslink /\ \E f \in F : x.link = f.link ELSE ~x.haslink
RECURSIVE Sizes(_)
Sizes(q) == IF q = <<>> THEN 0 ELSE (IF Head(q).kind = "file" THEN Head(q).len ELSE 0) + Sizes(Tail(q))
PackOK(s, e) ==
  LET src == SrcFor(s, e)
      v0 == PackVerdict(src, e.fs)
      v == IF e.op = "inside" /\ v0 = "done" THEN "any" ELSE PackHindered(v0, e.hinder, Sizes(e.facts))
      q == e.r.table IN
  /\ Allowed(v, e.r.done)
  /\ e.r.done =>
       /\ e.r.opened /\ Uniq(q)
       /\ Must(src, e.fs) \subseteq DOMAIN Fun(q) /\ DOMAIN Fun(q) \subseteq May(src, e.fs)
       /\ \A i \in 1..Len(q) : LET x == q[i]  F == FactsOf(e, x) IN
            /\ \E y \in SrcOf(src, e.fs, x.n) : x.c = y.c
            /\ \E f \in F : x.size = f.len
            /\ MimeOK(e.o, x, F) /\ LinkOK(e.o, x, F)

\* times
AccOK(raw, acc) == IF raw = <<>> THEN acc.z ELSE ~acc.z /\ DecOK("time", raw, [ok |-> TRUE, v |-> acc.v, ns |-> acc.ns])
\* the script gives milliseconds
ScrOK(raw, acc, y) == IF raw = <<>> THEN ~y.ok ELSE y.ok /\ y.v = acc.v /\ y.ns = (acc.ns \div 1000000) * 1000000
EntryTimes(x) ==
  /\ \A k \in {"m", "a", "c", "b"} : AccOK(x.raw[k], x.acc[k]) /\ ScrOK(x.raw[k], x.acc[k], x.scr[k])
  /\ x.hasc = (x.raw.c # <<>>) /\ x.hasb = (x.raw.b # <<>>)
  /\ x.same                              \* all ways to the entry report the same
TimesOK(s, e) ==
  e.r.done => \A i \in 1..Len(e.r.table) : LET x == e.r.table[i] IN
     /\ EntryTimes(x)
     /\ \E f \in FactsOf(e, x) :
          /\ x.raw.m = f.m /\ x.raw.a \in {f.as[j] : j \in 1..Len(f.as)} /\ x.raw.c = f.ct
          /\ x.raw.b \in {<<>>, f.bt}
MadeTimes(e) == \A i \in 1..Len(e.r.table) : LET x == e.r.table[i] IN
     /\ EntryTimes(x)
     /\ \A k \in {"m", "a", "c", "b"} : x.raw[k] = e.given[k]
Pks(s, e) == [i \in 1..Len(e.ps) |-> s.pk[e.ps[i]]]
\* the entry that a file of the destination comes from, when there is just one
OwnerTimes(P, q) ==
  \A i \in 1..Len(q) :
    LET has == {j \in 1..Len(P) : q[i].n \in DOMAIN P[j].tab}
        k == CHOOSE j \in has : \A m \in has : m <= j
        x == P[k].tab[q[i].n].raw IN
    (has # {} /\ x.m # <<>> /\ x.a # <<>>) =>
       /\ DecOK("time", x.m, [ok |-> TRUE, v |-> Low(q[i].m, 8), ns |-> NanoOf(SubSeq(q[i].m, 9, 12))])
       /\ DecOK("time", x.a, [ok |-> TRUE, v |-> Low(q[i].a, 8), ns |-> NanoOf(SubSeq(q[i].a, 9, 12))])

ExtractOK(s, e) ==
  LET P == Pks(s, e)
      big == \E i \in 1..Len(P) : \E n \in DOMAIN P[i].tab : P[i].tab[n].size > Limit IN
  /\ Allowed(ExtractHindered(ExtractVerdict(P, s.dst, s.there, e.md), e.hinder, P, s.dst, s.there, big), e.r.done)
  /\ e.r.outside = 0
  /\ Uniq(e.r.after)
  /\ (\A i \in 1..Len(P) : P[i].st # "any") => TreeOK(P, s.dst, e.r.done, e.hinder = "tight" /\ ~e.r.done, Tree(e.r.after))
  /\ e.r.log

Good(s, e) ==
  /\ e.r.crash = ""
  /\ CASE e.op \in {"pack", "inside"} ->
            /\ "pack" \in Aspects => PackOK(s, e) /\ e.r.outside = 0
            /\ "times" \in Aspects => TimesOK(s, e)
       [] e.op = "make" -> ("times" \in Aspects => MadeTimes(e))
       [] e.op = "extract" ->
            /\ "extract" \in Aspects => ExtractOK(s, e)
            /\ ("times" \in Aspects /\ e.r.done /\ e.ft /\ \A i \in 1..Len(e.ps) : s.pk[e.ps[i]].st = "ok") => OwnerTimes(Pks(s, e), e.r.after)
       [] OTHER -> TRUE
After(s, e) ==
  CASE e.op = "put" -> IF e.r.ok THEN [s EXCEPT !.src[e.f] = (e.n :> [kind |-> e.kind, c |-> e.tok]) @@ @] ELSE s
    [] e.op = "del" -> IF e.r.ok THEN [s EXCEPT !.src[e.f] = [n \in DOMAIN @ \ {e.n} |-> @[n]]] ELSE s
    [] e.op \in {"pack", "make"} -> [s EXCEPT !.pk[e.p] = IF e.r.done /\ e.r.opened THEN [st |-> "ok", tab |-> Fun(e.r.table)] ELSE [st |-> "any", tab |-> <<>>]]
    [] e.op = "cut" -> IF e.r.lost /\ s.pk[e.p].st = "ok" THEN [s EXCEPT !.pk[e.p].st = "bad"] ELSE s
    [] e.op \in {"extract", "plant", "clean"} -> [s EXCEPT !.dst = Tree(e.r.after), !.there = e.r.there]
    [] OTHER -> s
Fail(e, exp) == PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(exp))
Why(s, e) == IF e.op \in {"pack", "inside"}
             THEN [verdict |-> PackVerdict(SrcFor(s, e), e.fs), must |-> Must(SrcFor(s, e), SelectSeq(e.fs, LAMBDA f : f \in DOMAIN s.src)),
                   pack |-> PackOK(s, e), times |-> TimesOK(s, e)]
             ELSE IF e.op = "extract" THEN [verdict |-> ExtractVerdict(Pks(s, e), s.dst, s.there, e.md), dst |-> s.dst, pks |-> Pks(s, e)]
             ELSE [op |-> e.op]
Init == l = 1 /\ S = <<>> /\ skip = FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN S' = Start /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED <<S, skip>>
           ELSE IF e.r.crash = "" /\ Good(S, e) THEN S' = After(S, e) /\ skip' = FALSE
           ELSE /\ Fail(e, IF e.r.crash = "" THEN Why(S, e) ELSE [op |-> e.op])
                /\ skip' = TRUE /\ S' = S
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
