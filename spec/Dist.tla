-------------------------------- MODULE Dist --------------------------------
(* Distribution of collected tests over workers (C01, C02, C03).

   A distribution is a state machine: the tests to hand out are `in', a sequence of records
   [k |-> identity, f |-> file, c |-> top-level class, 0 for module level]; the action Batch(b) hands the sequence b of
   identities to the next worker; Done ends the distribution.  Equal identities are the same test given twice. *)
EXTENDS Naturals, Sequences, FiniteSets

Range(q) == {q[i] : i \in 1..Len(q)}
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Min(a, b) == IF a < b THEN a ELSE b

\* The unit of a mode: what must not be torn apart.  Single tests have no unit to keep together.
UnitOf(mode, r) == CASE mode = "loadscope" -> <<r.f, r.c>>
                     [] mode = "loadfile" -> <<r.f>>
                     [] OTHER -> <<>>
Grouped(mode) == mode \in {"loadscope", "loadfile"}

\* b is a subsequence of a (both sequences of identities)
RECURSIVE SubSeqFrom(_, _, _, _)
SubSeqFrom(b, j, a, i) == IF j > Len(b) THEN TRUE
                          ELSE IF i > Len(a) THEN FALSE
                          ELSE IF b[j] = a[i] THEN SubSeqFrom(b, j + 1, a, i + 1) ELSE SubSeqFrom(b, j, a, i + 1)
IsSub(b, a) == SubSeqFrom(b, 1, a, 1)

Keys(in) == [i \in 1..Len(in) |-> in[i].k]

(* ----- state ----- *)
Start(c) == LET keys == {c.in[i].k : i \in 1..Len(c.in)}
                unit == [k \in keys |-> UnitOf(c.mode, c.in[CHOOSE i \in 1..Len(c.in) : c.in[i].k = k])]
            IN [mode |-> c.mode, n |-> c.n, in |-> c.in, unit |-> unit,
                todo |-> [k \in keys |-> Cardinality({i \in 1..Len(c.in) : c.in[i].k = k})],
                owner |-> [u \in {} |-> 0], out |-> <<>>, done |-> FALSE]

Known(s, b) == {x \in Range(b) : x \in DOMAIN s.unit}
UnitsOf(s, b) == {s.unit[x] : x \in Known(s, b)}
\* number of units of a batch
Load(s, b) == IF Grouped(s.mode) THEN Cardinality(UnitsOf(s, b)) ELSE Len(b)
Units(s) == IF Grouped(s.mode) THEN Cardinality(Range([i \in 1..Len(s.in) |-> s.unit[s.in[i].k]]))
            ELSE Len(s.in)

Limit(s) == IF s.mode = "no" THEN 1 ELSE s.n
Expected(s) == IF s.in = <<>> THEN 0 ELSE IF s.mode = "no" THEN 1 ELSE Min(s.n, Units(s))

(* ----- guards: what an event breaks ----- *)
ViolBatch(s, b) ==
    (IF b = <<>> THEN {"C01.empty"} ELSE {})
    \cup (IF \E x \in Range(b) : x \notin DOMAIN s.todo \/ Count(b, x) > s.todo[x] THEN {"C01.foreign"} ELSE {})
    \cup (IF Len(s.out) + 1 > Limit(s) THEN {"C01.toomany"} ELSE {})
    \cup (IF Grouped(s.mode) /\ UnitsOf(s, b) \cap DOMAIN s.owner # {} THEN {"C02.split"} ELSE {})
    \cup (IF Grouped(s.mode)
          THEN IF \A u \in UnitsOf(s, b) :
                    LET Of(q) == SelectSeq(q, LAMBDA x : x \in DOMAIN s.unit /\ s.unit[x] = u)
                    IN IsSub(Of(b), Of(Keys(s.in)))
               THEN {} ELSE {"C03.order"}
          ELSE IF IsSub(b, Keys(s.in)) THEN {} ELSE {"C03.order"})

ViolDone(s) ==
    (IF \E k \in DOMAIN s.todo : s.todo[k] > 0 THEN {"C01.lost"} ELSE {})
    \cup (IF Len(s.out) # Expected(s) THEN {"C03.count"} ELSE {})
    \cup (IF s.mode # "no" /\ \E i, j \in 1..Len(s.out) : Load(s, s.out[i]) > Load(s, s.out[j]) + 1
          THEN {"C03.balance"} ELSE {})

ViolAgain(s, out) == IF out # s.out THEN {"C03.det"} ELSE {}

Viol(s, e) == CASE e.ev = "batch" -> ViolBatch(s, e.tests)
                [] e.ev = "done" -> ViolDone(s)
                [] e.ev = "again" -> ViolAgain(s, e.out)
                [] e.ev = "fail" -> {"C01.fail", "C02.fail", "C03.fail"}
                [] OTHER -> {"C01.unknown_event"}

(* ----- effects (total, so that a trace is read to its end) ----- *)
Sub(a, b) == IF a > b THEN a - b ELSE 0
Apply(s, e) ==
    CASE e.ev = "batch" ->
            [s EXCEPT !.todo = [k \in DOMAIN s.todo |-> Sub(s.todo[k], Count(e.tests, k))],
                      !.owner = [u \in DOMAIN s.owner \cup UnitsOf(s, e.tests) |->
                                   IF u \in DOMAIN s.owner THEN s.owner[u] ELSE Len(s.out) + 1],
                      !.out = Append(s.out, e.tests)]
      [] e.ev = "done" -> [s EXCEPT !.done = TRUE]
      [] OTHER -> s
=============================================================================
