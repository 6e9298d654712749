------------------------------ MODULE Trace_Lua -----------------------------
EXTENDS Lua, Json, IOUtils
CONSTANT Aspects      \* "session", "tags", "auto"
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, env, skip

SetOf(q) == {q[i] : i \in 1..Len(q)}
VT(X) == {[t |-> x.t, v |-> x.v] : x \in X}           \* tags without the value read
\* hexadecimal little-endian number
HexDigit(c) == CHOOSE i \in 0..15 : SubSeq("0123456789abcdef", i + 1, i + 1) = c
RECURSIVE HexLE(_)
HexLE(v) == IF v = "" THEN 0 ELSE HexDigit(SubSeq(v, 1, 1)) * 16 + HexDigit(SubSeq(v, 2, 2)) + 256 * HexLE(SubSeq(v, 3, Len(v)))

\* what the implementation chose for a packed file: the last entry of the recorded table
\* a file identifier is a number not yet used in the package; other times than the modification time are open
Used(s) == UNION {{HexLE(x.v) : x \in {y \in s.tab[i].tags : y.t = 4}} : i \in 1..Len(s.tab)}
ExplicitFid(e) == \E i \in 1..Len(e.T) : KeyTid(e.T[i].k) = 4
Adopt(s, e) ==
  IF e.op \notin {"putdata", "putfile"} \/ Len(e.r.tab) = 0 THEN [fid |-> "", fidb |-> "", off |-> 0, more |-> {}]
  ELSE LET x == e.r.tab[Len(e.r.tab)]
           F == {y \in SetOf(x.tags) : y.t = 4} IN
       [fid  |-> IF F = {} THEN "" ELSE (CHOOSE y \in F : TRUE).v,
        fidb |-> IF F = {} THEN "" ELSE LET v == (CHOOSE y \in F : TRUE).v IN
                 IF Len(v) \in {2, 4, 8} THEN "n" \o ToString(HexLE(v)) ELSE "?",
        off  |-> x.o,
        more |-> {[t |-> y.t, v |-> y.v, b |-> "?"] : y \in {z \in SetOf(x.tags) : z.t \in {6, 7, 8} /\ e.op = "putfile"}}]
AdOK(s, e, o, ad) ==
  (Len(o.S.tab) > Len(s.tab) /\ e.op \in {"putdata", "putfile"}) =>
     /\ ad.off >= BaseOf(s) + s.dend
     /\ ("fid" \in s.auto /\ ~ExplicitFid(e)) => Len(ad.fid) \in {2, 4, 8} /\ HexLE(ad.fid) \notin Used(s)
     /\ e.op = "putfile" => HasT(ad.more, 6)

TabOK(T, q, s, en) ==
  /\ Len(q) = Len(T)
  /\ \A i \in 1..Len(T) : /\ q[i].k = T[i].k /\ q[i].p = T[i].k
                          /\ q[i].n = en.len[T[i].c] /\ q[i].o = T[i].o
                          /\ ("tags" \in Aspects \/ "auto" \in Aspects) => SetOf(q[i].tags) = VT(T[i].tags)
                          /\ Cardinality(SetOf(q[i].tags)) = Len(q[i].tags)
InfoOK(I, q) == SetOf(q) = VT(I)
DiskOK(D, q, en) ==
  \A p \in DOMAIN D :
    LET d == D[p]  x == q[p] IN
    IF d.st = "none" THEN x.st # "ok"
    ELSE IF d.st = "pre" THEN x.st = "notready"
    ELSE x.st = "ok" /\ TabOK(d.tab, x.tab, d, en) /\ InfoOK(d.info, x.info)
         /\ \A i \in 1..Len(d.tab) : x.tab[i].c = d.tab[i].c
Sum(q, F(_)) == LET RECURSIVE G(_) G(i) == IF i > Len(q) THEN 0 ELSE F(q[i]) + G(i + 1) IN G(1)
RecOK(s, n, en) ==
  LET full == {s.tab[i].d : i \in {j \in 1..Len(s.tab) : en.len[s.tab[j].c] > 0}}
      all == {s.tab[i].d : i \in 1..Len(s.tab)} IN
  n >= Cardinality(full) /\ n <= Cardinality(all)
Label(s) == LET X == {x \in s.info : x.t = 110} IN IF X = {} THEN "nil" ELSE (CHOOSE x \in X : TRUE).b
\* the package as a string: counts, and what its information says of itself
InfoText(s, t, name) == LET X == {x \in s.info : x.t = t} IN
  IF X = {} THEN "" ELSE LET b == (CHOOSE x \in X : TRUE).b IN ", " \o name \o ": " \o SubSeq(b, 2, Len(b))
TextOK(s, str, en) == Long(s.info) \/ \E n \in 0..Len(s.tab) :
  /\ RecOK(s, n, en)
  /\ str = "files: " \o ToString(n) \o ", aliases: " \o ToString(Len(s.tab) - n) \o ", datasize: " \o ToString(s.dend)
           \o InfoText(s, 110, "label") \o InfoText(s, 111, "link") \o InfoText(s, 114, "version") \o InfoText(s, 115, "author") \o InfoText(s, 116, "comment")
PropsOK(s, e, en) == LET p == e.r.props IN
  /\ p.pkgpath = IF s.open = "no" THEN "nil" ELSE s.path
  /\ p.datpath = IF s.open # "split" THEN "nil" ELSE s.dat
  /\ p.tagnum = Len(s.tab)
  /\ RecOK(s, p.recnum, en)
  /\ p.fftsize = Sum(e.r.tab, LAMBDA x : x.rl + 2)
  /\ p.datasize = s.dend
  /\ p.sumsize = Sum(s.tab, LAMBDA x : en.len[x.c])
  /\ p.label = Label(s) /\ TextOK(s, p.str, en)
  /\ SetOf(p.auto) = s.auto /\ p.secret = s.secret
  /\ SetOf(p.glob) = {s.tab[i].k : i \in 1..Len(s.tab)} /\ Len(p.glob) = Len(s.tab)
  /\ \A i \in 1..Len(p.files) : LET x == p.files[i]  j == Pos(s.tab, x.k) IN
        /\ x.has = (j # 0)
        /\ x.size = IF j = 0 THEN "err" ELSE "n" \o ToString(en.len[s.tab[j].c])
\* an identifier among the package information is left open
RetOK(o, e) ==
  IF e.op = "getinfo" THEN
    LET A == {x \in SetOf(e.r.kv) : x.k # "fid"}  W == {x \in o.ret : x.k # "fid"} IN
    /\ {x.k : x \in A} = {x.k : x \in W} /\ Len(e.r.kv) = Cardinality({x.k : x \in SetOf(e.r.kv)})
    /\ \A x \in A : \E y \in W : y.k = x.k /\ y.b \in {x.b, "?"}
  ELSE IF e.op = "gettags" /\ o.err = "" THEN
    /\ {x.k : x \in SetOf(e.r.kv)} = {x.k : x \in o.ret}
    /\ Len(e.r.kv) = Cardinality(o.ret)
    /\ \A x \in SetOf(e.r.kv) : \E y \in o.ret : y.k = x.k /\ y.b \in {x.b, "?"}
  ELSE /\ Len(e.r.ret) = Len(o.ret)
       /\ \A i \in 1..Len(o.ret) : o.ret[i] \in {e.r.ret[i], "?"}

Good(s, e, o, ad) ==
  /\ e.r.crash = "" /\ e.r.err = o.err
  /\ AdOK(s, e, o, ad)
  /\ RetOK(o, e)
  /\ TabOK(o.S.tab, e.r.tab, o.S, env) /\ InfoOK(o.S.info, e.r.info)
  /\ "auto" \in Aspects => SetOf(e.r.props.auto) = o.S.auto /\ e.r.props.secret = o.S.secret
  /\ "session" \in Aspects => DiskOK(o.S.disk, e.r.disk, env) /\ PropsOK(o.S, e, env)
Fail(e, exp) == PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(exp))
Why(s, e, o, ad) == [err |-> e.r.err = o.err, ad |-> AdOK(s, e, o, ad), ret |-> RetOK(o, e), tab |-> TabOK(o.S.tab, e.r.tab, o.S, env),
                     info |-> InfoOK(o.S.info, e.r.info), disk |-> DiskOK(o.S.disk, e.r.disk, env),
                     props |-> IF "files" \in DOMAIN e.r.props THEN PropsOK(o.S, e, env) ELSE FALSE]

Init == l = 1 /\ S = <<>> /\ env = <<>> /\ skip = FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN S' = New(SetOf(e.paths)) /\ env' = e.env /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED <<S, env, skip>>
           ELSE LET ad == Adopt(S, e)
                    o == Do(env, S, e, ad) IN
             /\ env' = env
             /\ IF e.r.crash = "" /\ Good(S, e, o, ad) THEN S' = o.S /\ skip' = FALSE
                ELSE /\ Fail(e, [want |-> [err |-> o.err, ret |-> o.ret, S |-> o.S],
                                 same |-> IF e.r.crash = "" THEN Why(S, e, o, ad) ELSE <<>>])
                     /\ skip' = TRUE /\ S' = S
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
