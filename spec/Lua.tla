-------------------------------- MODULE Lua ---------------------------------
(* The scripting API: a package object with its session (closed, writing a   *)
(* single file, writing a split package), the entries with their tags, the   *)
(* automatic tags, and the package files on disk.                            *)
(*                                                                           *)
(* A tag is [t, v, b]: identifier, stored bytes in hexadecimal and the value *)
(* a script gets back, "s.." a string, "n.." a number, "b0"/"b1" a boolean,  *)
(* "x.." a string of unprintable bytes, "?" left open.                       *)
(* An entry is [k, c, d, o, tags]: name, content identifier, identity of the *)
(* packing call, offset, set of tags beyond offset, size and path.           *)
(* env describes the world the harness built: length of contents, digests    *)
(* by content and secret, and MIME types by name and content.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ---- tag names, types and conversion of values ----                       *)
KeyTid(k) ==
  CASE k = "fid" -> 4    [] k = "mtime" -> 5   [] k = "mime" -> 10  [] k = "crc32" -> 12
    [] k = "crc32c" -> 12 [] k = "crc64" -> 14 [] k = "crc64iso" -> 14 [] k = "md5" -> 20 [] k = "sha1" -> 21
    [] k = "sha224" -> 22 [] k = "sha256" -> 23 [] k = "sha384" -> 24 [] k = "sha512" -> 25
    [] k = "label" -> 110 [] k = "keywords" -> 112 [] k = "author" -> 115 [] k = "comment" -> 116
    [] k = "atime" -> 6 [] k = "ctime" -> 7 [] k = "btime" -> 8 [] k = "crc32ieee" -> 11 [] k = "crc32k" -> 13
    [] k = "tmbjpeg" -> 100 [] k = "tmbwebp" -> 101 [] k = "link" -> 111 [] k = "category" -> 113 [] k = "version" -> 114
    [] k = "offset" -> 1  [] k = "size" -> 2   [] k = "path" -> 3   [] k = "attr" -> 9
    [] k = "#1" -> 1  [] k = "#3" -> 3  [] k = "#4" -> 4   [] k = "#5" -> 5  [] k = "#115" -> 115 [] k = "#200" -> 200
    [] k = "#65535" -> 65535
    [] OTHER -> -1       \* unknown name, number out of range, fraction, other type
TidKey(t) ==
  CASE t = 1 -> "offset" [] t = 2 -> "size" [] t = 3 -> "path" [] t = 4 -> "fid"
    [] t = 5 -> "mtime" [] t = 6 -> "atime" [] t = 7 -> "ctime" [] t = 8 -> "btime" [] t = 9 -> "attr" [] t = 10 -> "mime"
    [] t = 11 -> "crc32ieee" [] t = 13 -> "crc32k" [] t = 100 -> "tmbjpeg" [] t = 101 -> "tmbwebp"
    [] t = 111 -> "link" [] t = 113 -> "category" [] t = 114 -> "version"
    [] t = 12 -> "crc32" [] t = 14 -> "crc64" [] t = 20 -> "md5" [] t = 21 -> "sha1" [] t = 22 -> "sha224"
    [] t = 23 -> "sha256" [] t = 24 -> "sha384" [] t = 25 -> "sha512" [] t = 110 -> "label" [] t = 112 -> "keywords"
    [] t = 115 -> "author" [] t = 116 -> "comment" [] OTHER -> "#" \o ToString(t)
TidType(t) == IF t \in {1, 2, 4, 9} THEN "uint"
              ELSE IF t \in 5..8 THEN "time"
              ELSE IF t \in 11..14 \cup 20..25 \cup {100, 101} THEN "bin"
              ELSE IF t \in {3, 10} \cup 110..116 THEN "str" ELSE "any"
Protected == {1, 2, 3}

Yes(v, b) == [ok |-> TRUE, v |-> v, b |-> b]
No == [ok |-> FALSE, v |-> "", b |-> ""]
\* what the value named `id` becomes as a tag of identifier t
Conv(t, id) == LET x == TidType(t) \o ":" \o id IN
  CASE x = "bin:hex" -> Yes("0a0b", "s0a0b")
    [] x = "bin:n5" -> Yes("05", "s05")
    [] x = "bin:n300" -> Yes("2c01", "s2c01")
    [] x = "bin:n70000" -> Yes("70110100", "s70110100")
    [] x = "bin:n8" -> Yes("0000000001000000", "s0000000001000000")
    [] x = "bin:empty" -> Yes("", "s")
    [] x = "bin:num" -> No        \* odd number of digits
    [] x = "str:abc" -> Yes("616263", "sabc")
    [] x = "str:hex" -> Yes("30613062", "s0a0b")
    [] x = "str:num" -> Yes("37", "s7")
    [] x = "str:n5" -> Yes("35", "s5")
    [] x = "str:n300" -> Yes("333030", "s300")
    [] x = "str:n70000" -> Yes("3730303030", "s70000")
    [] x = "str:n8" -> Yes("34323934393637323936", "s4294967296")
    [] x = "str:neg" -> Yes("2d35", "s-5")
    [] x = "str:negs" -> Yes("2d35", "s-5")
    [] x = "str:frac" -> Yes("322e35", "s2.5")
    [] x = "str:true" -> Yes("74727565", "strue")
    [] x = "str:false" -> Yes("66616c7365", "sfalse")
    [] x = "str:empty" -> Yes("", "s")
    [] x = "str:tm" -> Yes("323032302d30312d30325430333a30343a30352e3637385a", "s2020-01-02T03:04:05.678Z")
    [] x = "str:ms" -> Yes("31353737393334323435363738", "s1577934245678")
    [] x = "str:long" -> Yes("#65535:61", "s#65535:61")
    [] x = "uint:num" -> Yes("07", "n7")
    [] x = "uint:n5" -> Yes("05", "n5")
    [] x = "uint:n300" -> Yes("2c01", "n300")
    [] x = "uint:n256" -> Yes("0001", "n256")     [] x = "uint:n65536" -> Yes("00000100", "n65536")
    [] x = "uint:n70000" -> Yes("70110100", "n70000")
    [] x = "uint:n8" -> Yes("0000000001000000", "n4294967296")
    [] x = "uint:true" -> Yes("01", "n1")
    [] x = "uint:false" -> Yes("00", "n0")
    [] x = "uint:ms" -> Yes("2ecf35646f010000", "n1577934245678")
    [] x = "time:n5" -> Yes("0500000000000000", "s1970-01-01T00:00:00.005Z")
    [] x = "time:n300" -> Yes("2c01000000000000", "s1970-01-01T00:00:00.3Z")
    [] x = "time:neg" -> Yes("fbffffffffffffff", "s1969-12-31T23:59:59.995Z")
    [] x = "time:ms" -> Yes("2ecf35646f010000", "s2020-01-02T03:04:05.678Z")
    [] x = "time:tm" -> Yes("a55d0d5e0000000080756928", "s2020-01-02T03:04:05.678Z")
    [] x = "any:abc" -> Yes("616263", "sabc")
    [] x = "any:hex" -> Yes("30613062", "s0a0b")
    [] x = "any:negs" -> Yes("2d35", "s-5")
    [] x = "any:num" -> Yes("37", "s7")
    [] x = "any:n5" -> Yes("05", "x05")
    [] x = "any:n300" -> Yes("2c01", "x2c01")
    [] x = "any:n70000" -> Yes("70110100", "x70110100")
    [] x = "any:neg" -> Yes("00000000000014c0", "x00000000000014c0")
    [] x = "any:frac" -> Yes("0000000000000440", "x0000000000000440")
    [] x = "any:true" -> Yes("01", "x01")
    [] x = "any:false" -> Yes("00", "x00")
    [] x = "any:empty" -> Yes("", "s")
    [] x = "any:tm" -> Yes("323032302d30312d30325430333a30343a30352e3637385a", "s2020-01-02T03:04:05.678Z")
    [] x = "any:ms" -> Yes("2ecf35646f010000", "x2ecf35646f010000")
    [] x = "any:long" -> Yes("#65535:61", "s#65535:61")
    [] OTHER -> No
\* values whose conversion the specification leaves open
Open(t, id) == (TidType(t) \o ":" \o id) \in {"uint:frac", "bin:frac", "time:frac", "any:n8", "bin:toolong", "bin:long", "bin:ms", "time:n70000", "time:n8"}

KeyOK(k) == KeyTid(k) # -1 /\ KeyTid(k) \notin Protected
TagOf(k, v) == LET c == Conv(KeyTid(k), v) IN [t |-> KeyTid(k), v |-> c.v, b |-> c.b]
PairOK(k, v) == KeyOK(k) /\ Conv(KeyTid(k), v).ok
TableOK(T) == \A i \in 1..Len(T) : PairOK(T[i].k, T[i].v)
TableTags(T) == {TagOf(T[i].k, T[i].v) : i \in 1..Len(T)}
Tids(X) == {x.t : x \in X}
HasT(X, t) == \E x \in X : x.t = t
Without(X, Ts) == {x \in X : x.t \notin Ts}
Over(X, Y) == Without(X, Tids(Y)) \cup Y         \* Y replaces
Under(X, Y) == X \cup Without(Y, Tids(X))        \* only absent ones of Y are added

(* ---- state ----                                                           *)
NoDisk == [st |-> "none", tab |-> <<>>, info |-> {}, dat |-> "", dend |-> 0]
Fresh == [open |-> "no", path |-> "", dat |-> "", tab |-> <<>>, info |-> {}, dend |-> 0,
          auto |-> {}, secret |-> "s0", nd |-> 0]
New(paths) == Fresh @@ [disk |-> [p \in paths |-> NoDisk]]
Pos(T, k) == LET I == {i \in 1..Len(T) : T[i].k = k} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Cut(T, i) == SubSeq(T, 1, i - 1) \o SubSeq(T, i + 1, Len(T))
BaseOf(S) == IF S.dat = "" THEN 64 ELSE 0

Ret(S, ret) == [S |-> S, err |-> "", ret |-> ret]
Err(S) == [S |-> S, err |-> "err", ret |-> <<>>]
B(x) == IF x THEN <<"b1">> ELSE <<"b0">>
N(n) == <<"n" \o ToString(n)>>

Begin(S, p, d) ==
  IF S.open # "no" THEN Err(S)
  ELSE IF p \notin DOMAIN S.disk \/ d = "nodir" THEN Err(S)
  ELSE Ret([S EXCEPT !.open = IF d = "" THEN "single" ELSE "split", !.path = p, !.dat = d, !.tab = <<>>, !.dend = 0,
                     !.disk[p] = IF d = "" THEN [NoDisk EXCEPT !.st = "pre"]
                                 ELSE [NoDisk EXCEPT !.st = "ok", !.dat = d]], <<>>)
Load(S, p, d) ==
  IF S.open # "no" THEN Err(S)
  ELSE IF p \notin DOMAIN S.disk THEN Err(S)
  ELSE IF S.disk[p].st # "ok" THEN Err(S)
  ELSE Ret([S EXCEPT !.path = p, !.dat = d, !.tab = S.disk[p].tab, !.info = S.disk[p].info,
                     !.dend = S.disk[p].dend], <<>>)
AppendPkg(S) ==
  IF S.open # "no" \/ S.path = "" \/ S.dat = "dx" THEN Err(S)
  ELSE Ret([S EXCEPT !.open = IF S.dat = "" THEN "single" ELSE "split",
                     !.disk[S.path] = IF S.dat = "" THEN [NoDisk EXCEPT !.st = "pre"] ELSE @], <<>>)
Written(S) == [st |-> "ok", tab |-> S.tab, info |-> S.info, dat |-> S.dat, dend |-> S.dend]
\* a set of tags beyond 65535 bytes cannot be written, the session goes on
Long(X) == \E x \in X : x.v = "#65535:61"
TooLong(S) == Long(S.info) \/ \E i \in 1..Len(S.tab) : Long(S.tab[i].tags)
Flush(S) == IF S.open # "split" \/ TooLong(S) THEN Err(S) ELSE Ret([S EXCEPT !.disk[S.path] = Written(S)], <<>>)
Finalize(S) == IF S.open = "no" \/ TooLong(S) THEN Err(S) ELSE Ret([S EXCEPT !.disk[S.path] = Written(S), !.open = "no"], <<>>)

\* ad: what the specification leaves to the implementation: [fid, fidb, off, more]
AutoTags(env, S, k, c, ad) ==
  (IF "fid" \in S.auto THEN {[t |-> 4, v |-> ad.fid, b |-> ad.fidb]} ELSE {})
  \cup (IF "mime" \in S.auto THEN {[t |-> 10, v |-> env.mime[k][c].v, b |-> env.mime[k][c].b]} ELSE {})
  \cup {[t |-> KeyTid(a), v |-> env.dig[c][S.secret][a], b |-> "s" \o env.dig[c][S.secret][a]]
          : a \in S.auto \ {"fid", "mime"}}
PutEntry(env, S, k, c, T, ftags, ad) ==
  LET e == [k |-> k, c |-> c, d |-> S.nd + 1, o |-> ad.off,
            tags |-> Over(Under(ftags, AutoTags(env, S, k, c, ad)), TableTags(T))] IN
  Ret([S EXCEPT !.tab = Append(@, e), !.nd = @ + 1,
                !.dend = IF ad.off + env.len[c] - BaseOf(S) > @ THEN ad.off + env.len[c] - BaseOf(S) ELSE @], <<>>)
PutOK(S, k, T) == S.open # "no" /\ TableOK(T) /\ Pos(S.tab, k) = 0
PutData(env, S, e, ad) ==
  IF ~PutOK(S, e.k, e.T) THEN Err(S) ELSE PutEntry(env, S, e.k, e.c, e.T, {}, ad)
PutFile(env, S, e, ad) ==
  IF ~PutOK(S, e.k, e.T) \/ e.c \in {"absent", "dir"} THEN Err(S)
  ELSE PutEntry(env, S, e.k, e.c, e.T, {[t |-> 5, v |-> e.mt.v, b |-> e.mt.b]} \cup ad.more, ad)

Rename(S, a, b) == LET i == Pos(S.tab, a) IN
  IF i = 0 \/ Pos(S.tab, b) # 0 THEN Err(S)
  ELSE Ret([S EXCEPT !.tab = Append(Cut(@, i), [S.tab[i] EXCEPT !.k = b])], <<>>)
Alias(S, a, b) == LET i == Pos(S.tab, a) IN
  IF i = 0 \/ Pos(S.tab, b) # 0 THEN Err(S)
  ELSE Ret([S EXCEPT !.tab = Append(@, [S.tab[i] EXCEPT !.k = b])], <<>>)
\* files below directory a are moved below b one after another; a name in use is passed over, or ends the
\* work with an error when skipping is off; a script gets the number of files moved
Starts(k, p) == Len(k) >= Len(p) /\ SubSeq(k, 1, Len(p)) = p
DirOf(a) == IF a = "" \/ SubSeq(a, Len(a), Len(a)) = "/" THEN a ELSE a \o "/"
RenameDir(S, a, b, skip) ==
  LET p == DirOf(a)  q == DirOf(b)
      R == SelectSeq(S.tab, LAMBDA e : Starts(e.k, p))
      RECURSIVE F(_, _, _)
      F(T, i, n) == IF i > Len(R) THEN Ret([S EXCEPT !.tab = T], N(n))
        ELSE LET k == q \o SubSeq(R[i].k, Len(p) + 1, Len(R[i].k)) IN
             IF Pos(T, k) # 0 THEN (IF skip THEN F(T, i + 1, n) ELSE Err([S EXCEPT !.tab = T]))
             ELSE F(Append(Cut(T, Pos(T, R[i].k)), [R[i] EXCEPT !.k = k]), i + 1, n + 1)
  IN F(S.tab, 1, 0)
DelAlias(S, k) == LET i == Pos(S.tab, k) IN
  IF i = 0 THEN Ret(S, B(FALSE)) ELSE Ret([S EXCEPT !.tab = Cut(@, i)], B(TRUE))

\* offset, size and path are tags too
AllTags(env, x) == x.tags \cup {[t |-> 1, v |-> "", b |-> "n" \o ToString(x.o)],
                                [t |-> 2, v |-> "", b |-> "n" \o ToString(env.len[x.c])],
                                [t |-> 3, v |-> "", b |-> "s" \o x.k]}
HasTag(env, S, k, key) == LET i == Pos(S.tab, k) IN
  IF i = 0 \/ KeyTid(key) = -1 THEN Err(S) ELSE Ret(S, B(HasT(AllTags(env, S.tab[i]), KeyTid(key))))
GetTag(env, S, k, key) == LET i == Pos(S.tab, k) IN
  IF i = 0 \/ KeyTid(key) = -1 THEN Err(S)
  ELSE LET X == {x \in AllTags(env, S.tab[i]) : x.t = KeyTid(key)} IN
       Ret(S, IF X = {} THEN <<>> ELSE <<(CHOOSE x \in X : TRUE).b>>)
SetTag(S, k, key, v) == LET i == Pos(S.tab, k) IN
  IF i = 0 \/ ~PairOK(key, v) THEN Err(S)
  ELSE Ret([S EXCEPT !.tab[i].tags = Over(@, {TagOf(key, v)})], B(~HasT(S.tab[i].tags, KeyTid(key))))
AddTag(S, k, key, v) == LET i == Pos(S.tab, k) IN
  IF i = 0 \/ ~PairOK(key, v) THEN Err(S)
  ELSE Ret([S EXCEPT !.tab[i].tags = Under(@, {TagOf(key, v)})], B(~HasT(S.tab[i].tags, KeyTid(key))))
DelTag(S, k, key) == LET i == Pos(S.tab, k) IN
  IF i = 0 \/ ~KeyOK(key) THEN Err(S)
  ELSE Ret([S EXCEPT !.tab[i].tags = Without(@, {KeyTid(key)})], B(HasT(S.tab[i].tags, KeyTid(key))))
SetTags(S, k, T) == LET i == Pos(S.tab, k) IN
  IF i = 0 \/ ~TableOK(T) THEN Err(S)
  ELSE Ret([S EXCEPT !.tab[i].tags = Over(@, TableTags(T))], <<>>)
AddTags(S, k, T) == LET i == Pos(S.tab, k) IN
  IF i = 0 \/ ~TableOK(T) THEN Err(S)
  ELSE Ret([S EXCEPT !.tab[i].tags = Under(@, TableTags(T))],
           N(Cardinality(Without(TableTags(T), Tids(S.tab[i].tags)))))
DelTags(S, k, T) == LET i == Pos(S.tab, k)  D == {KeyTid(T[j].k) : j \in 1..Len(T)} IN
  IF i = 0 \/ ~(\A j \in 1..Len(T) : KeyOK(T[j].k)) THEN Err(S)
  ELSE Ret([S EXCEPT !.tab[i].tags = Without(@, D)], N(Cardinality(Tids(S.tab[i].tags) \cap D)))
\* tables read are compared as sets of [k, b]
GetTags(env, S, k) == LET i == Pos(S.tab, k) IN
  IF i = 0 THEN Err(S) ELSE Ret(S, {[k |-> TidKey(x.t), b |-> x.b] : x \in AllTags(env, S.tab[i])})
GetInfo(S) == Ret(S, {[k |-> TidKey(x.t), b |-> x.b] : x \in S.info})
SetupInfo(S, T) == IF ~TableOK(T) THEN Err(S) ELSE Ret([S EXCEPT !.info = TableTags(T)], <<>>)
SetLabel(S, v) == LET c == Conv(110, v) IN
  IF v \notin {"abc", "empty", "hex"} THEN Err(S)
  ELSE Ret([S EXCEPT !.info = Over(@, {[t |-> 110, v |-> c.v, b |-> c.b]})], <<>>)
SetAuto(S, a, on) == Ret([S EXCEPT !.auto = IF on THEN @ \cup {a} ELSE @ \ {a}], <<>>)
SetSecret(S, v) == Ret([S EXCEPT !.secret = v], <<>>)

Do(env, S, e, ad) ==
  CASE e.op = "new"      -> Ret(Fresh @@ [disk |-> S.disk], <<>>)
    [] e.op = "begin"    -> Begin(S, e.a, e.b)
    [] e.op = "load"     -> Load(S, e.a, e.b)
    [] e.op = "append"   -> AppendPkg(S)
    [] e.op = "flush"    -> Flush(S)
    [] e.op = "finalize" -> Finalize(S)
    [] e.op = "putdata"  -> PutData(env, S, e, ad)
    [] e.op = "putfile"  -> PutFile(env, S, e, ad)
    [] e.op = "rename"   -> Rename(S, e.k, e.a)
    [] e.op = "renamedir" -> RenameDir(S, e.k, e.a, e.b # "false")
    [] e.op = "putalias" -> Alias(S, e.k, e.a)
    [] e.op = "delalias" -> DelAlias(S, e.k)
    [] e.op = "hastag"   -> HasTag(env, S, e.k, e.a)
    [] e.op = "gettag"   -> GetTag(env, S, e.k, e.a)
    [] e.op = "settag"   -> SetTag(S, e.k, e.a, e.b)
    [] e.op = "addtag"   -> AddTag(S, e.k, e.a, e.b)
    [] e.op = "deltag"   -> DelTag(S, e.k, e.a)
    [] e.op = "gettags"  -> GetTags(env, S, e.k)
    [] e.op = "settags"  -> SetTags(S, e.k, e.T)
    [] e.op = "addtags"  -> AddTags(S, e.k, e.T)
    [] e.op = "deltags"  -> DelTags(S, e.k, e.T)
    [] e.op = "getinfo"  -> GetInfo(S)
    [] e.op = "setupinfo" -> SetupInfo(S, e.T)
    [] e.op = "label"    -> SetLabel(S, e.b)
    [] e.op = "auto"     -> SetAuto(S, e.a, e.b = "on")
    [] e.op = "secret"   -> SetSecret(S, e.a)

(* Operations left open: values without a defined conversion, two keys of    *)
(* one tag in a table, and appending with data paths that do not belong      *)
(* together.                                                                 *)
Legal(S, e) ==
  /\ e.op \in {"settag", "addtag"} => ~Open(KeyTid(e.a), e.b)
  /\ e.op \in {"putdata", "putfile", "settags", "addtags", "setupinfo"} =>
        \A i \in 1..Len(e.T) : ~Open(KeyTid(e.T[i].k), e.T[i].v)
  /\ e.op = "load" => (S.open # "no" \/ e.b = "dx" \/ e.a \notin DOMAIN S.disk \/ S.disk[e.a].dat = e.b)
  /\ e.op = "append" => (S.open # "no" \/ S.path = "" \/ S.dat = "dx" \/ S.disk[S.path].st = "ok")

(* ---- invariants of the design ----                                        *)
InvUnique(S) == \A i, j \in 1..Len(S.tab) : S.tab[i].k = S.tab[j].k => i = j
InvTags(S) == \A i \in 1..Len(S.tab) : \A x, y \in S.tab[i].tags : x.t = y.t => x = y
InvOpen(S) == S.open # "no" => /\ S.path # ""
                               /\ (S.open = "single" => S.disk[S.path].st = "pre")
                               /\ (S.open = "split" => S.disk[S.path].st = "ok")
=============================================================================
