------------------------------ MODULE InheritMC ------------------------------
(* Design of the collection of inherited tests: the lineages of the bases of a class are merged one class per step, the
   first head that no lineage has further back next, the first head of all where there is none (Python rejects such a
   hierarchy).  Explored for every hierarchy of N classes: the order is Python's (Lookup.tla) wherever Python has one, and
   every ancestor occurs in it once in any case.  Visiting the bases depth first and keeping the last occurrence of a class
   is not enough: Keep differs from four classes on (C(B, A) and D(C, B)), which this specification found in rtest. *)
EXTENDS Lookup, TLC, Json
CONSTANTS N, Dump
VARIABLES classes, todo, merged, phase
vars == <<classes, todo, merged, phase>>

RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Perms(S \ {x})} : x \in S}
BasesOf(k) == UNION {Perms(S) : S \in SUBSET (1..(k - 1))}
RECURSIVE Hier(_)
Hier(k) == IF k = 0 THEN {<<>>} ELSE {Append(h, [bases |-> b, attrs |-> <<>>]) : h \in Hier(k - 1), b \in BasesOf(k)}

Good(q) == {i \in 1..Len(q) : \A j \in 1..Len(q) : ~InTail(Head(q[i]), q[j])}
Pick(q) == Head(q[IF Good(q) = {} THEN 1 ELSE CHOOSE i \in Good(q) : \A j \in Good(q) : i <= j])
Without(x, q) == NonEmpty([i \in 1..Len(q) |-> SelectSeq(q[i], LAMBDA y : y # x)])
RECURSIVE Done(_)
Done(q) == IF q = <<>> THEN <<>> ELSE <<Pick(q)>> \o Done(Without(Pick(q), q))
RECURSIVE Line(_, _)
Line(cs, k) == LET bs == cs[k].bases IN <<k>> \o Done(NonEmpty([i \in 1..Len(bs) |-> Line(cs, bs[i])] \o <<bs>>))
RECURSIVE Dfs(_, _)
Dfs(cs, q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o Dfs(cs, cs[Head(q)].bases \o Tail(q))
KeepLast(q) == SelectSeq([i \in 1..Len(q) |-> IF \E j \in (i + 1)..Len(q) : q[j] = q[i] THEN 0 ELSE q[i]], LAMBDA x : x # 0)

Init == /\ classes \in Hier(N)
        /\ todo = LET bs == classes[N].bases IN NonEmpty([i \in 1..Len(bs) |-> Line(classes, bs[i])] \o <<bs>>)
        /\ merged = <<>> /\ phase = "merge"
Step == /\ phase = "merge" /\ todo # <<>>
        /\ merged' = Append(merged, Pick(todo)) /\ todo' = Without(Pick(todo), todo) /\ UNCHANGED <<classes, phase>>
Finish == phase = "merge" /\ todo = <<>> /\ phase' = "done" /\ UNCHANGED <<classes, todo, merged>>
Spec == Init /\ [][Step \/ Finish]_vars
Order == (phase = "done" /\ Consistent(classes, N)) => <<N>> \o merged = Lin(classes, N)
RECURSIVE Anc(_)
Anc(k) == {k} \cup UNION {Anc(classes[k].bases[i]) : i \in 1..Len(classes[k].bases)}
Complete == phase = "done" => {merged[i] : i \in 1..Len(merged)} = Anc(N) \ {N} /\ Len(merged) = Cardinality(Anc(N)) - 1
Keep == (phase = "done" /\ Consistent(classes, N)) => KeepLast(Dfs(classes, <<N>>)) = Lin(classes, N)
AllOk == \A k \in 1..N : Consistent(classes, k)
Scenarios == (Dump /\ phase = "done" /\ AllOk) => PrintT(<<"SCN", ToJson([i \in 1..N |-> classes[i].bases])>>)
=============================================================================
