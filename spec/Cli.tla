--------------------------------- MODULE Cli ---------------------------------
(* Command line: number of workers, distribution mode (C16) and environment entries (C17).
   Texts are sequences of code points.  cfg: n [given, text], max [given, v], dist [given, text], cpus [auto, logical],
   env: sequence of texts.
   Events: "args" (what the parsed command line amounts to), "env" (the entries as parsed), "pairs" (split entries),
   "proc" (one launched pytest process and what it sees for every key). *)
EXTENDS Naturals, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
Auto == <<97, 117, 116, 111>>
Logical == <<108, 111, 103, 105, 99, 97, 108>>
Load == <<108,111,97,100>>
LoadScope == <<108,111,97,100,115,99,111,112,101>>
LoadFile == <<108,111,97,100,102,105,108,101>>
No == <<110,111>>
DistModes == { <<108,111,97,100>>, <<108,111,97,100,115,99,111,112,101>>, <<108,111,97,100,102,105,108,101>>,
               <<119,111,114,107,115,116,101,97,108>>, <<110,111>> }
Digits(t) == t # <<>> /\ Len(t) <= 9 /\ \A i \in 1..Len(t) : t[i] \in 48..57
RECURSIVE Val(_, _)
Val(t, acc) == IF t = <<>> THEN acc ELSE Val(Tail(t), acc * 10 + (Head(t) - 48))

NOk(c) == ~c.n.given \/ c.n.text = Auto \/ c.n.text = Logical \/ Digits(c.n.text)
Wanted(c) == IF ~c.n.given THEN 1
             ELSE IF c.n.text = Auto THEN c.cpus.auto
             ELSE IF c.n.text = Logical THEN c.cpus.logical ELSE Val(c.n.text, 0)
Workers(c) == IF c.max.given THEN Min(Wanted(c), c.max.v) ELSE Wanted(c)
DistOk(c) == ~c.dist.given \/ c.dist.text \in DistModes

EQ == 61
HasEq(t) == \E i \in 1..Len(t) : t[i] = EQ
FirstEq(t) == CHOOSE i \in 1..Len(t) : t[i] = EQ /\ \A j \in 1..(i - 1) : t[j] # EQ
Split(t) == [k |-> SubSeq(t, 1, FirstEq(t) - 1), v |-> SubSeq(t, FirstEq(t) + 1, Len(t))]
Pairs(c) == LET q == SelectSeq(c.env, HasEq) IN [i \in 1..Len(q) |-> Split(q[i])]
\* The value given last for key k
LastFor(ps, k) == LET I == {i \in 1..Len(ps) : ps[i].k = k} IN ps[CHOOSE i \in I : \A j \in I : j <= i].v

Start(c) == [c |-> c, procs |-> 0]
ViolArgs(c, e) ==
    IF ~e.parse \/ ~e.n_ok THEN IF NOk(c) /\ (e.parse \/ DistOk(c)) THEN {"C16.rejected"} ELSE {}
    ELSE (IF ~NOk(c) THEN {"C16.accepted"} ELSE IF e.workers # Workers(c) THEN {"C16.workers"} ELSE {})
         \cup (IF e.dist_ok # DistOk(c) THEN {"C16.dist"} ELSE {})
Viol(s, e) ==
    CASE e.ev = "args" -> ViolArgs(s.c, e)
      [] e.ev = "env" -> IF e.v # s.c.env THEN {"C17.entries"} ELSE {}
      [] e.ev = "pairs" -> IF e.v # Pairs(s.c) THEN {"C17.pairs"} ELSE {}
      [] e.ev = "proc" -> IF \E i \in 1..Len(Pairs(s.c)) :
                               LET k == Pairs(s.c)[i].k
                               IN ~\E j \in 1..Len(e.env) : e.env[j].k = k /\ e.env[j].v = LastFor(Pairs(s.c), k)
                          THEN {"C17.process"} ELSE {}
      [] e.ev = "done" -> IF s.procs < e.procs THEN {"C17.unlaunched"} ELSE {}
      [] OTHER -> {"C16.fail", "C17.fail"}
Apply(s, e) == IF e.ev = "proc" THEN [s EXCEPT !.procs = @ + 1] ELSE s
=============================================================================
