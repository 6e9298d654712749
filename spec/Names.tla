-------------------------------- MODULE Names -------------------------------
(* The names of a package: an ordered list of entries with unique full       *)
(* names, the operations on names, sub-directory views, the directory tree   *)
(* the names imply, and unions of packages.                                  *)
(*                                                                           *)
(* An entry is [k, d, t]: full name, identity of its data, value of a tag    *)
(* that travels with it. A view is named by the full path of its directory   *)
(* ("." for the whole package). Well-formed names are slash separated lists  *)
(* of components; arguments may use either slash.                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Char(s, i) == SubSeq(s, i, i)
Slash(k) == LET RECURSIVE F(_) F(i) ==
                  IF i > Len(k) THEN "" ELSE
                  (IF Char(k, i) = "\\" THEN "/" ELSE Char(k, i)) \o F(i + 1)
            IN F(1)
HasPre(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
After(s, n) == SubSeq(s, n + 1, Len(s))
IsRoot(d) == d \in {".", ""}
Join(d, b) == IF IsRoot(d) THEN b ELSE IF IsRoot(b) THEN d ELSE d \o "/" \o b
Pre(d) == IF IsRoot(d) THEN "" ELSE d \o "/"
FirstSlash(s) == LET I == {i \in 1..Len(s) : Char(s, i) = "/"} IN
                 IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
LastSlash(s) == LET I == {i \in 1..Len(s) : Char(s, i) = "/"} IN
                IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i >= j
Base(s) == After(s, LastSlash(s))

\* order of names, bytewise over the characters in use
Alpha == " !#$%&'()*+,-.0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Rank == [c \in {Char(Alpha, i) : i \in 1..Len(Alpha)} |-> CHOOSE i \in 1..Len(Alpha) : Char(Alpha, i) = c]
Rk(c) == IF c \in DOMAIN Rank THEN Rank[c] ELSE 1000
Less(a, b) == LET RECURSIVE F(_) F(i) ==
                    IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                    ELSE IF Char(a, i) = Char(b, i) THEN F(i + 1)
                    ELSE Rk(Char(a, i)) < Rk(Char(b, i))
              IN F(1)

(* ---- the list of entries ----                                             *)
Pos(L, k) == LET I == {i \in 1..Len(L) : L[i].k = k} IN
             IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Has(L, k) == Pos(L, k) # 0
Cut(L, i) == SubSeq(L, 1, i - 1) \o SubSeq(L, i + 1, Len(L))
\* entries below a directory, under names relative to it
Rel(L, d) == LET p == Pre(d)
                 RECURSIVE F(_) F(i) == IF i > Len(L) THEN <<>> ELSE
                   (IF HasPre(L[i].k, p) THEN <<[L[i] EXCEPT !.k = After(@, Len(p))]>> ELSE <<>>) \o F(i + 1)
             IN F(1)
Names(L) == {L[i].k : i \in 1..Len(L)}
\* first one wins
RECURSIVE Merge(_)
Merge(Ls) == IF Ls = <<>> THEN <<>> ELSE
  LET M == Merge(SubSeq(Ls, 1, Len(Ls) - 1))
      L == Ls[Len(Ls)]
  IN M \o SelectSeq(L, LAMBDA e : ~Has(M, e.k))

(* ---- operations through a view at ws ----                                 *)
Res(L, err, cnt) == [L |-> L, err |-> err, cnt |-> cnt]
Put(L, ws, a, d, t) == LET k == Join(ws, Slash(a)) IN
  IF Has(L, k) THEN Res(L, "exist", 0) ELSE Res(Append(L, [k |-> k, d |-> d, t |-> t]), "", 0)
Del(L, ws, a) == LET i == Pos(L, Join(ws, Slash(a))) IN
  IF i = 0 THEN Res(L, "notexist", 0) ELSE Res(Cut(L, i), "", 0)
Tag(L, ws, a, t) == LET i == Pos(L, Join(ws, Slash(a))) IN
  IF i = 0 THEN Res(L, "notexist", 0) ELSE Res([L EXCEPT ![i].t = t], "", 0)
Move(L, i, k) == Append(Cut(L, i), [L[i] EXCEPT !.k = k])
Rename(L, ws, a, b) ==
  LET i == Pos(L, Join(ws, Slash(a)))  k == Join(ws, Slash(b)) IN
  IF i = 0 THEN Res(L, "notexist", 0) ELSE IF Has(L, k) THEN Res(L, "exist", 0)
  ELSE Res(Move(L, i, k), "", 0)
Alias(L, ws, a, b) ==
  LET i == Pos(L, Join(ws, Slash(a)))  k == Join(ws, Slash(b)) IN
  IF i = 0 THEN Res(L, "notexist", 0) ELSE IF Has(L, k) THEN Res(L, "exist", 0)
  ELSE Res(Append(L, [L[i] EXCEPT !.k = k]), "", 0)
DirArg(a) == IF a = "" \/ Char(a, Len(a)) = "/" THEN a ELSE a \o "/"
\* entries below a, one after another, are moved below b; a clash is skipped or ends the work
RenameDir(L, ws, a, b, skip) ==
  LET p == DirArg(Slash(a))  q == DirArg(Slash(b))
      R == SelectSeq(Rel(L, ws), LAMBDA e : HasPre(e.k, p))
      RECURSIVE F(_, _, _)
      F(M, i, n) == IF i > Len(R) THEN Res(M, "", n) ELSE
        LET k == Join(ws, q \o After(R[i].k, Len(p))) IN
        IF Has(M, k) THEN (IF skip THEN F(M, i + 1, n) ELSE Res(M, "exist", n))
        ELSE F(Move(M, Pos(M, Join(ws, R[i].k)), k), i + 1, n + 1)
  IN F(L, 1, 0)

(* ---- the tree implied by a list of relative names ----                    *)
IsFile(R, p) == Has(R, p)
IsDir(R, p) == IsRoot(p) \/ \E i \in 1..Len(R) : HasPre(R[i].k, p \o "/")
Clash(R) == \E i \in 1..Len(R) : IsDir(R, R[i].k)     \* a file where a directory is needed
Kids(R, d) == LET p == Pre(d) IN
  {LET s == After(R[i].k, Len(p))  c == FirstSlash(s) IN
     IF c = 0 THEN [n |-> s, dir |-> FALSE] ELSE [n |-> SubSeq(s, 1, c - 1), dir |-> TRUE]
   : i \in {j \in 1..Len(R) : HasPre(R[j].k, p)}}
Dirs(R) == {"."} \cup UNION {{SubSeq(R[i].k, 1, j - 1) : j \in {x \in 1..Len(R[i].k) : Char(R[i].k, x) = "/"}} : i \in 1..Len(R)}
Tree(R) == {[n |-> d, dir |-> TRUE] : d \in Dirs(R)} \cup {[n |-> k, dir |-> FALSE] : k \in Names(R)}

(* ---- patterns: *, ?, [..] with ranges and ^, no escapes ----               *)
\* position of the closing bracket of a well-formed class starting at i, 0 when there is none
ClassEnd(p, i) == LET from == IF i < Len(p) /\ Char(p, i + 1) = "^" THEN i + 2 ELSE i + 1
                      I == {j \in (from + 1)..Len(p) : Char(p, j) = "]"} IN
                  IF from > Len(p) \/ Char(p, from) = "]" \/ I = {} THEN 0 ELSE CHOOSE j \in I : \A x \in I : j <= x
RECURSIVE WellFormed(_, _)
WellFormed(p, i) == IF i > Len(p) THEN TRUE
  ELSE IF Char(p, i) = "[" THEN (LET c == ClassEnd(p, i) IN c # 0 /\ WellFormed(p, c + 1))
  ELSE WellFormed(p, i + 1)
InClass(p, i, c, ch) ==
  LET neg == Char(p, i + 1) = "^"
      from == IF neg THEN i + 2 ELSE i + 1
      RECURSIVE F(_) F(j) == IF j >= c THEN FALSE
        ELSE IF j + 2 < c /\ Char(p, j + 1) = "-"
             THEN (Rk(Char(p, j)) <= Rk(ch) /\ Rk(ch) <= Rk(Char(p, j + 2))) \/ F(j + 3)
        ELSE Char(p, j) = ch \/ F(j + 1)
  IN F(from) # neg
RECURSIVE M(_, _, _, _)
M(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF Char(p, i) = "*" THEN
         M(p, i + 1, s, j) \/ (j <= Len(s) /\ Char(s, j) # "/" /\ M(p, i, s, j + 1))
  ELSE IF j > Len(s) THEN FALSE
  ELSE IF Char(p, i) = "?" THEN Char(s, j) # "/" /\ M(p, i + 1, s, j + 1)
  ELSE IF Char(p, i) = "[" THEN
         LET c == ClassEnd(p, i) IN Char(s, j) # "/" /\ InClass(p, i, c, Char(s, j)) /\ M(p, c + 1, s, j + 1)
  ELSE Char(p, i) = Char(s, j) /\ M(p, i + 1, s, j + 1)
Glob(R, pat) == IF ~WellFormed(pat, 1) THEN [err |-> TRUE, l |-> {}]
                ELSE [err |-> FALSE, l |-> {k \in Names(R) : M(pat, 1, k, 1)}]

(* ---- what a query answers; an answer x conforms to list R ----            *)
Uniq(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
Sorted(q) == \A i \in 1..(Len(q) - 1) : Less(q[i].n, q[i + 1].n)
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Concat(SubSeq(q, 2, Len(q)))
ListOK(R, d, q) == {q[i] : i \in 1..Len(q)} = Kids(R, d) /\ Sorted(q)
\* portions of at most n members, none empty, then end of file
PortionsOK(R, d, n, ps, end) ==
  /\ end = "eof"
  /\ \A i \in 1..Len(ps) : Len(ps[i]) >= 1 /\ Len(ps[i]) <= n
  /\ ListOK(R, d, Concat(ps))
DataOf(R, k) == R[Pos(R, k)].d

\* rooted: the root is known to be there (a whole package, or a view with entries)
Answer(R, rooted, q) ==
  LET a == Slash(q.a)  r == q.r
      gone == ~rooted /\ R = <<>> /\ IsRoot(a)
      file == IsFile(R, a)
      dir == ~file /\ IsDir(R, a)
      none == ~file /\ ~dir
  IN
  IF gone THEN TRUE ELSE
  CASE q.q = "stat" ->
         IF none THEN r.e = "notexist"
         ELSE r.e = "" /\ r.dir = dir /\ (IsRoot(a) \/ r.n = Base(a)) /\ (file => r.len = 8 + Len(DataOf(R, a)))
    [] q.q = "open" ->
         IF none THEN r.e = "notexist"
         ELSE r.e = "" /\ r.dir = dir /\ (IsRoot(a) \/ r.n = Base(a)) /\ (file => r.d = DataOf(R, a))
              /\ (dir => ListOK(R, a, r.l))
    [] q.q = "readdir" ->
         IF none THEN r.e = "notexist" ELSE IF file THEN r.e # ""
         ELSE r.e = "" /\ ListOK(R, a, r.l)
    [] q.q = "readfile" ->
         IF file THEN r.e = "" /\ r.d = DataOf(R, a) ELSE IF none THEN r.e = "notexist" ELSE r.e # ""
    [] q.q = "portions" ->
         IF ~dir THEN r.e # "" ELSE r.e = "" /\ PortionsOK(R, a, q.n, r.ps, r.end)
    [] q.q = "mixed" ->     \* first q.n members, then all the rest, then nothing, then end of file
         IF ~dir THEN r.e # ""
         ELSE r.e = "" /\ ListOK(R, a, Concat(r.ps)) /\ r.rest = 0 /\ r.end = "eof"
              /\ Len(r.ps[1]) = (IF q.n < Cardinality(Kids(R, a)) THEN q.n ELSE Cardinality(Kids(R, a)))
    [] q.q = "readdirn" ->  \* the first q.n members, or all of them when fewer (that is told) or when q.n is 0
         IF none THEN r.e = "notexist" ELSE IF file THEN r.e # ""
         ELSE LET c == Cardinality(Kids(R, a)) IN
              /\ r.e = "" /\ Sorted(r.l) /\ {r.l[i] : i \in 1..Len(r.l)} \subseteq Kids(R, a)
              /\ Len(r.l) = (IF q.n > 0 /\ q.n < c THEN q.n ELSE c)
              /\ \A x \in Kids(R, a) \ {r.l[i] : i \in 1..Len(r.l)} : \A i \in 1..Len(r.l) : Less(r.l[i].n, x.n)
              /\ r.n = (IF q.n > c THEN "eof" ELSE "")
    [] q.q = "glob" ->
         LET g == Glob(R, a) IN
         IF g.err THEN r.e # "" ELSE r.e = "" /\ Uniq(r.l) /\ {r.l[i] : i \in 1..Len(r.l)} = g.l
    [] q.q = "walk" ->
         r.e = "" /\ Uniq(r.l) /\ {r.l[i] : i \in 1..Len(r.l)} = Tree(R)
    [] q.q = "keys" ->
         r.e = "" /\ Uniq(r.l) /\ {r.l[i] : i \in 1..Len(r.l)} = Names(R)
    [] q.q = "has" -> r.dir = file
    [] q.q = "sub" ->
         IF dir /\ (R # <<>>) THEN r.e = "" ELSE IF IsRoot(a) THEN TRUE ELSE r.e = "notexist"
\* In a union one package may have a file where another one has a directory: the file is what its name stands for,
\* and a directory lists the name once.
ListAny(R, d, q) == /\ Sorted(q) /\ Uniq(q) /\ {q[i] : i \in 1..Len(q)} \subseteq Kids(R, d)
                    /\ {q[i].n : i \in 1..Len(q)} = {x.n : x \in Kids(R, d)}
AnswerClash(R, q) ==
  LET a == Slash(q.a)  r == q.r  file == IsFile(R, a)  dir == ~file /\ IsDir(R, a) IN
  IF q.q \in {"stat", "open"} /\ dir THEN
    r.e = "" /\ r.dir /\ (IsRoot(a) \/ r.n = Base(a)) /\ (q.q = "open" => ListAny(R, a, r.l))
  ELSE IF q.q = "readdir" /\ dir THEN r.e = "" /\ ListAny(R, a, r.l)
  ELSE IF q.q \in {"stat", "open", "readfile", "glob", "keys", "has"} THEN Answer(R, TRUE, q)
  ELSE TRUE
\* full and relative names of a view at w; what lies outside has no relative name
PathOK(w, q) == q.crash = "" /\
  CASE q.q = "full" -> q.r.d = Join(w, q.a)
    [] q.q = "trim" -> q.r.d = (IF IsRoot(w) THEN q.a
                                ELSE IF q.a = w \/ q.a = w \o "/" THEN "."
                                ELSE IF HasPre(q.a, w \o "/") THEN After(q.a, Len(w) + 1) ELSE "")
\* a file where a directory is needed: the tree is not defined, plain look-ups still are
Asked(R, q) == ~Clash(R) \/ q.q = "keys" \/ (q.q \in {"has", "readfile"} /\ IsFile(R, Slash(q.a)))
QueryOK(R, rooted, q) == q.crash = "" /\ (Asked(R, q) => Answer(R, rooted, q))
=============================================================================
