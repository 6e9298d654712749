------------------------------- MODULE PathUtil ------------------------------
(* Helpers on paths, of the package util and of scripts. Strings are looked  *)
(* at character by character.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

At(s, i) == IF i \in 1..Len(s) THEN SubSeq(s, i, i) ELSE ""
From(s, i) == SubSeq(s, i, Len(s))
RECURSIVE MapStr(_, _, _)
MapStr(F(_), s, i) == IF i > Len(s) THEN "" ELSE F(At(s, i)) \o MapStr(F, s, i + 1)

Lowers == "abcdefghijklmnopqrstuvwxyz"
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Chars(s) == {At(s, i) : i \in 1..Len(s)}
LowerSet == Chars(Lowers)
UpperSet == Chars(Uppers)
Index(s, ch) == CHOOSE i \in 1..Len(s) : At(s, i) = ch
Lo(ch) == IF ch \in UpperSet THEN At(Lowers, Index(Uppers, ch)) ELSE ch
Up(ch) == IF ch \in LowerSet THEN At(Uppers, Index(Lowers, ch)) ELSE ch
Sl(ch) == IF ch = "\\" THEN "/" ELSE ch
Key(ch) == Lo(Sl(ch))
ToSlash(s) == MapStr(Sl, s, 1)
ToLower(s) == MapStr(Lo, s, 1)
ToUpper(s) == MapStr(Up, s, 1)
ToKey(s) == MapStr(Key, s, 1)

\* the same on bytes
LoB(b) == IF b \in 65..90 THEN b + 32 ELSE b
UpB(b) == IF b \in 97..122 THEN b - 32 ELSE b
SlB(b) == IF b = 92 THEN 47 ELSE b
Bytes(F(_), q) == [i \in 1..Len(q) |-> F(q[i])]
KeyB(b) == LoB(SlB(b))

\* position of the last / first character of a set, 0 if none
LastOf(s, X) == LET I == {i \in 1..Len(s) : At(s, i) \in X} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
FirstOf(s, X) == LET I == {i \in 1..Len(s) : At(s, i) \in X} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
\* the last part of the path, up to its first dot
PathName(s) == LET b == From(s, LastOf(s, {"/", "\\"}) + 1)
                   d == FirstOf(b, {"."}) IN IF d = 0 THEN b ELSE SubSeq(b, 1, d - 1)
\* one slash between the chunks; an empty chunk and "." add nothing
JoinTwo(d, b) == IF d \in {"", "."} THEN b ELSE IF b \in {"", "."} THEN d
                 ELSE (IF At(d, Len(d)) = "/" THEN SubSeq(d, 1, Len(d) - 1) ELSE d) \o "/" \o (IF At(b, 1) = "/" THEN From(b, 2) ELSE b)

------------------------------------------------------------------------------
\* lexical operations on slash paths, as documented for scripts
RECURSIVE Cut(_, _, _)
Cut(s, i, cur) == IF i > Len(s) THEN <<cur>>
                  ELSE IF At(s, i) = "/" THEN <<cur>> \o Cut(s, i + 1, "") ELSE Cut(s, i + 1, cur \o At(s, i))
RECURSIVE Fold(_, _, _, _)
Fold(q, i, at, rooted) ==
  IF i > Len(q) THEN at
  ELSE IF q[i] \in {"", "."} THEN Fold(q, i + 1, at, rooted)
  ELSE IF q[i] = ".." THEN
         IF at # <<>> /\ at[Len(at)] # ".." THEN Fold(q, i + 1, SubSeq(at, 1, Len(at) - 1), rooted)
         ELSE IF rooted THEN Fold(q, i + 1, at, rooted) ELSE Fold(q, i + 1, Append(at, ".."), rooted)
  ELSE Fold(q, i + 1, Append(at, q[i]), rooted)
RECURSIVE Glue(_)
Glue(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "/" \o Glue(Tail(q))
Clean(s) == LET rooted == At(s, 1) = "/"
                g == Glue(Fold(Cut(s, 1, ""), 1, <<>>, rooted)) IN
            IF rooted THEN "/" \o g ELSE IF g = "" THEN "." ELSE g
SplitDir(s) == SubSeq(s, 1, LastOf(s, {"/"}))
SplitFile(s) == From(s, LastOf(s, {"/"}) + 1)
Dir(s) == Clean(SplitDir(s))
RECURSIVE Trim(_)
Trim(s) == IF s # "" /\ At(s, Len(s)) = "/" THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Base(s) == IF s = "" THEN "." ELSE IF Trim(s) = "" THEN "/" ELSE SplitFile(Trim(s))
ExtOf(s) == LET f == SplitFile(s)  d == LastOf(f, {"."}) IN IF d = 0 THEN "" ELSE From(f, d)
JoinClean(a, b) == LET g == Glue(SelectSeq(<<a, b>>, LAMBDA x : x # "")) IN IF g = "" THEN "" ELSE Clean(g)
JoinClean3(a, b, c) == LET g == Glue(SelectSeq(<<a, b, c>>, LAMBDA x : x # "")) IN IF g = "" THEN "" ELSE Clean(g)
\* shell patterns of *, ? and plain characters; neither matches a slash
RECURSIVE Match(_, _)
Match(p, n) == IF p = "" THEN n = ""
               ELSE IF At(p, 1) = "*" THEN Match(From(p, 2), n) \/ (n # "" /\ At(n, 1) # "/" /\ Match(p, From(n, 2)))
               ELSE n # "" /\ (At(p, 1) = At(n, 1) \/ (At(p, 1) = "?" /\ At(n, 1) # "/")) /\ Match(From(p, 2), From(n, 2))

------------------------------------------------------------------------------
\* expansion of variables; map has precedence over env, both name -> value
First == LowerSet \cup UpperSet \cup {"_"}
VarChars == First \cup Chars("0123456789")
RECURSIVE RunEnd(_, _)
RunEnd(s, i) == IF At(s, i + 1) \in VarChars THEN RunEnd(s, i + 1) ELSE i      \* end of the name that starts at or before i
Known(v, map, env) == v \in DOMAIN map \cup DOMAIN env
Val(v, map, env) == IF v \in DOMAIN map THEN map[v] ELSE env[v]
\* the set of allowed results: %X%, with X unknown, may or may not use up its second %
RECURSIVE Expand(_, _, _, _)
Expand(s, i, map, env) ==
  IF i > Len(s) THEN {""}
  ELSE
    LET c == At(s, i)
        lit == {c \o r : r \in Expand(s, i + 1, map, env)}
        Put(x, k) == {x \o r : r \in Expand(s, k, map, env)} IN
    IF c = "$" /\ At(s, i + 1) \in First THEN
      LET j == RunEnd(s, i + 1)  v == SubSeq(s, i + 1, j) IN
      IF Known(v, map, env) THEN Put(Val(v, map, env), j + 1) ELSE Put(SubSeq(s, i, j), j + 1)
    ELSE IF c = "$" /\ At(s, i + 1) = "{" /\ At(s, i + 2) \in First THEN
      LET j == RunEnd(s, i + 2)  v == SubSeq(s, i + 2, j) IN
      IF At(s, j + 1) # "}" THEN lit
      ELSE IF Known(v, map, env) THEN Put(Val(v, map, env), j + 2) ELSE Put(SubSeq(s, i, j + 1), j + 2)
    ELSE IF c = "%" /\ At(s, i + 1) \in First THEN
      LET j == RunEnd(s, i + 1)  v == SubSeq(s, i + 1, j) IN
      IF At(s, j + 1) # "%" THEN lit
      ELSE IF Known(v, map, env) THEN Put(Val(v, map, env), j + 2)
      ELSE Put(SubSeq(s, i, j + 1), j + 2) \cup Put(SubSeq(s, i, j), j + 1)
    ELSE lit
Envfmt(s, map, env) == Expand(s, 1, map, env)

------------------------------------------------------------------------------
HexOf(b) == At("0123456789abcdef", (b \div 16) + 1) \o At("0123456789abcdef", (b % 16) + 1)
RECURSIVE Hex(_)
Hex(q) == IF q = <<>> THEN "" ELSE HexOf(q[1]) \o Hex(Tail(q))
=============================================================================
