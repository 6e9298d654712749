----------------------------- MODULE Trace_Store ----------------------------
EXTENDS Store, Json, IOUtils
CONSTANT Aspects     \* which observations this check compares
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S, skip

\* the logged table of a package: [k, p, c, o, n, tags]; projected to names, contents and tags
NoD(T) == [i \in 1..Len(T) |-> [k |-> T[i].k, c |-> T[i].c, tags |-> T[i].tags]]
NoC(T) == [i \in 1..Len(T) |-> [k |-> T[i].k, tags |-> T[i].tags]]
Names(T) == [i \in 1..Len(T) |-> T[i].k]
Conts(T) == [i \in 1..Len(T) |-> T[i].c]

ErrOK(e, o) == IF o.err = "fault" THEN e.r.err # "" ELSE e.r.err = o.err

\* a disk view x conforms to disk value d
DiskIs(x, d) ==
  IF d.st = "ok" THEN
    /\ x.st = "ok" /\ NoC(x.tab) = NoC(d.tab) /\ x.info = d.info
    /\ x.cnt = Len(d.tab)
    /\ \A i \in 1..Len(x.tab) : x.tab[i].p = x.tab[i].k
  ELSE IF d.st = "notready" THEN x.st = "notready"
  ELSE x.st # "ok"

MemIs(x, s) == NoC(x.tab) = NoC(s.tab) /\ x.info = s.info /\ x.num = Len(s.tab)
               /\ \A i \in 1..Len(x.tab) : x.tab[i].p = x.tab[i].k

\* everything the file says about itself is coherent with its table
Coherent(x, s) == x.st = "ok" =>
    /\ x.split = (s.mode = "split")
    /\ x.hcnt = Len(x.tab)            \* header count
    /\ x.ds = x.hds                   \* data size reported = recorded

\* extents: inside the data area, disjoint unless they are the same data
Extents(T, D, x) ==
    /\ \A i \in 1..Len(T) : T[i].o >= x.do /\ T[i].o + T[i].n <= x.do + x.hds
    /\ \A i, j \in 1..Len(T) :
         IF D[i].d = D[j].d THEN T[i].o = T[j].o /\ T[i].n = T[j].n
         ELSE T[i].n = 0 \/ T[j].n = 0 \/ T[i].o + T[i].n <= T[j].o \/ T[j].o + T[j].n <= T[i].o
    /\ (x.do # 0 => x.fo >= x.do + x.hds) /\ x.fo >= 64

DoUpTo(s, e) == IF e.op = "view" THEN {} ELSE Do(s, e)

Good(e, o) ==
  /\ e.r.crash = "" /\ ErrOK(e, o)
  /\ ("mem" \in Aspects => MemIs(e.r.mem, o.s))
  /\ ("disk" \in Aspects => DiskIs(e.r.disk, o.s.disk) /\ Coherent(e.r.disk, o.s))
  /\ ("cont" \in Aspects =>
        /\ (o.s.disk.st = "ok" => /\ e.r.disk.st = "ok"
                                  /\ Names(e.r.disk.tab) = Names(o.s.disk.tab)
                                  /\ Conts(e.r.disk.tab) = Conts(o.s.disk.tab)
                                  /\ Extents(e.r.disk.tab, o.s.disk.tab, e.r.disk)
                                  /\ \A i \in 1..Len(e.r.disk.tab) : e.r.disk.tab[i].n = e.r.disk.tab[i].cn)
        /\ Names(e.r.mem.tab) = Names(o.s.tab)
        \* a failed begin has given up the old files already
        /\ (e.op = "fault" /\ e.in.op = "begin") \/ Conts(e.r.mem.tab) = Conts(o.s.tab)
        /\ "memext" \in Aspects => Extents(e.r.mem.tab, o.s.tab, [do |-> e.r.mem.do, hds |-> e.r.mem.ds, fo |-> 2147483647])
        /\ e.r.held = o.s.held)
  /\ ("quick" \in Aspects =>
        LET q == e.r.quick  d == o.s.disk IN
        IF d.st = "ok" THEN /\ q.st = "ok" /\ q.info = d.info /\ q.cnt = Len(d.tab)
                            /\ q.ds = e.r.disk.ds /\ (q.fs = e.r.disk.tl \/ (q.fs = 0 /\ d.tab = <<>> /\ d.info = <<>>))
        ELSE IF d.st = "notready" THEN q.st = "notready"
        ELSE q.st # "ok")

\* a reader's view of the files between two moments
ViewIs(e, s) == \E d \in Visible(s, e.back) :
    /\ DiskIs(e.r, d)
    /\ d.st = "ok" => Conts(e.r.tab) = Conts(d.tab) /\ e.r.late = Conts(d.tab)

Fail(e, exp) == PrintT("MISMATCH " \o ToString(l) \o " " \o ToJson(exp))

Init == l = 1 /\ S = {} /\ skip = FALSE
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "reset" THEN S' = {New(e.mode)} /\ skip' = FALSE
           ELSE IF skip THEN UNCHANGED <<S, skip>>
           ELSE IF e.op = "view" THEN
             LET G == {s \in S : e.r.crash = "" /\ ViewIs(e, s)} IN
             IF G = {} THEN Fail(e, {Visible(s, e.back) : s \in S}) /\ skip' = TRUE /\ S' = S
             ELSE S' = G /\ skip' = FALSE
           ELSE LET A == UNION {Do(s, e) : s \in S}
                    G == {o \in A : Good(e, o)} IN
             IF G = {} THEN Fail(e, {[err |-> o.err, tab |-> o.s.tab, info |-> o.s.info, disk |-> o.s.disk, held |-> o.s.held] : o \in A})
                            /\ skip' = TRUE /\ S' = S
             ELSE S' = {o.s : o \in G} /\ skip' = FALSE
View == l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
