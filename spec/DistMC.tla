------------------------------- MODULE DistMC -------------------------------
(* Design: units are dealt one by one, in any order, to a worker that has fewest, as long as there are workers.
   TLC explores every input list up to MaxLen over a small universe, every mode and worker count, and every order of
   dealing; the properties are stated here independently of the guards of Dist, and every complete behaviour is also
   required to satisfy those guards.  Every input is printed as a scenario for the implementation. *)
EXTENDS Dist, TLC, Json
CONSTANTS MaxLen, MaxN, Dump
VARIABLES cfg, left, w, over

\* Two files; class 0 is module level.  Identities 1..6.
Universe == << [k |-> 1, f |-> 1, c |-> 0], [k |-> 2, f |-> 1, c |-> 0], [k |-> 3, f |-> 1, c |-> 1],
               [k |-> 4, f |-> 1, c |-> 1], [k |-> 5, f |-> 2, c |-> 0], [k |-> 6, f |-> 2, c |-> 1] >>
Lists == UNION {[1..len -> Range(Universe)] : len \in 0..MaxLen}
Modes == {"load", "loadscope", "loadfile", "worksteal", "no"}

Positions(c) == 1..Len(c.in)
\* Units as sets of positions
UnitSets(c) == CASE c.mode = "no" -> IF c.in = <<>> THEN {} ELSE {Positions(c)}
                 [] c.mode \in {"loadscope", "loadfile"} ->
                      {{i \in Positions(c) : UnitOf(c.mode, c.in[i]) = u} : u \in {UnitOf(c.mode, c.in[i]) : i \in Positions(c)}}
                 [] OTHER -> {{i} : i \in Positions(c)}

Init == /\ cfg \in [in : Lists, mode : Modes, n : 1..MaxN]
        /\ left = UnitSets(cfg)
        /\ w = [i \in 1..cfg.n |-> {}]
        /\ over = FALSE
\* w[i]: set of units dealt to worker i
Deal == /\ left # {}
        /\ \E u \in left, i \in 1..cfg.n :
             /\ \A j \in 1..cfg.n : Cardinality(w[i]) <= Cardinality(w[j])
             /\ left' = left \ {u}
             /\ w' = [w EXCEPT ![i] = @ \cup {u}]
        /\ UNCHANGED <<cfg, over>>
Finish == left = {} /\ ~over /\ over' = TRUE /\ UNCHANGED <<cfg, left, w>>
Next == Deal \/ Finish
Spec == Init /\ [][Next]_<<cfg, left, w, over>>

RECURSIVE Ordered(_)
Ordered(P) == IF P = {} THEN <<>> ELSE LET i == CHOOSE i \in P : \A j \in P : i <= j IN <<i>> \o Ordered(P \ {i})
Bat(i) == LET p == Ordered(UNION w[i]) IN [j \in 1..Len(p) |-> cfg.in[p[j]].k]
Out == SelectSeq([i \in 1..cfg.n |-> Bat(i)], LAMBDA b : b # <<>>)

\* The properties, on positions
Once == over => \A i \in Positions(cfg) : Cardinality({j \in 1..cfg.n : i \in UNION w[j]}) = 1
Together == (over /\ Grouped(cfg.mode)) =>
    \A i, j \in Positions(cfg) : UnitOf(cfg.mode, cfg.in[i]) = UnitOf(cfg.mode, cfg.in[j]) =>
        \E k \in 1..cfg.n : {i, j} \subseteq UNION w[k]
Even == over => \A i, j \in 1..cfg.n : Cardinality(w[i]) <= Cardinality(w[j]) + 1
Few == over => Len(Out) <= cfg.n
\* Every behaviour of the design passes the guards used on traces
RECURSIVE RunAll(_, _)
RunAll(s, q) == IF q = <<>> THEN ViolDone(s)
                ELSE ViolBatch(s, Head(q)) \cup RunAll(Apply(s, [ev |-> "batch", tests |-> Head(q)]), Tail(q))
Agree == over => RunAll(Start(cfg), Out) = {}
\* ... and a behaviour damaged in one place does not: the guards are not vacuous
DropOne(q) == <<Tail(q[1])>> \o Tail(q)
Swap(q) == [i \in 1..Len(q) |-> IF i = 1 THEN <<q[2][1]>> \o Tail(q[1]) ELSE IF i = 2 THEN <<q[1][1]>> \o Tail(q[2]) ELSE q[i]]
Sharp == (over /\ Out # <<>>) =>
    /\ RunAll(Start(cfg), DropOne(Out)) # {}
    /\ RunAll(Start(cfg), Out \o <<Out[1]>>) # {}
    /\ (Grouped(cfg.mode) /\ Len(Out) > 1 /\ Len(Out[1]) > 1 /\ Out[1][1] # Out[1][2]
          /\ UnitOf(cfg.mode, Universe[Out[1][1]]) = UnitOf(cfg.mode, Universe[Out[1][2]])) =>
         "C02.split" \in RunAll(Start(cfg), Swap(Out))
Scenarios == (Dump /\ ~over /\ left = UnitSets(cfg)) =>
    PrintT(<<"SCN", ToJson([in |-> cfg.in, mode |-> cfg.mode, n |-> cfg.n])>>)
=============================================================================
