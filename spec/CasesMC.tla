------------------------------- MODULE CasesMC -------------------------------
(* Design of the case decorators, in two parts that share one state space.
   part "ids": ids are handed out one by one; an entry gets its wish if that is free and anything free otherwise.  Every
   outcome satisfies GoodIds, for every list of wishes, and handing out never gets stuck.
   part "ops": functions are decorated and wrapped in any order; nothing but the function named changes, and a wrapper
   starts with what the wrapped function has.  Complete lists of wishes and of operations are printed as scenarios. *)
EXTENDS Cases, TLC, Json
CONSTANTS MaxIds, MaxOps
VARIABLES part, wishes, ids, fns, ops

Texts == {<<97>>, <<97, 95, 49>>, <<97, 95, 50>>, <<97, 95, 49, 95, 49>>, <<>>}
Pool == Texts \cup {<<98, i>> : i \in 1..MaxIds}
Fns == {1, 2}
DecIds == {1, 2}
Fams == {"rtest", "pytest"}
Ops == [op : {"decorate"}, f : Fns, fam : Fams, d : DecIds] \cup {[op |-> "wrap", f |-> 1, from |-> 2], [op |-> "wrap", f |-> 2, from |-> 1]}
Init == /\ ids = <<>> /\ ops = <<>>
        /\ fns = [f \in Fns |-> None]
        /\ \/ part = "ids" /\ wishes \in UNION {[1..n -> Texts] : n \in 0..MaxIds}
           \/ part = "ops" /\ wishes = <<>>
Taken == {ids[i] : i \in 1..Len(ids)}
Hand == /\ part = "ids" /\ Len(ids) < Len(wishes)
        /\ LET w == wishes[Len(ids) + 1] IN
             \E x \in (IF w \notin Taken THEN {w} ELSE Pool \ Taken) : ids' = Append(ids, x)
        /\ UNCHANGED <<part, wishes, fns, ops>>
Do == /\ part = "ops" /\ Len(ops) < MaxOps
      /\ \E o \in Ops :
           /\ ops' = Append(ops, o)
           /\ fns' = Apply([fns |-> fns, given |-> [f \in Fns |-> <<>>]],
                           IF o.op = "wrap" THEN [ev |-> "wrap", f |-> o.f, from |-> o.from] ELSE [ev |-> "decorate", f |-> o.f, fam |-> o.fam, d |-> o.d]).fns
      /\ UNCHANGED <<part, wishes, ids>>
Next == Hand \/ Do
Spec == Init /\ [][Next]_<<part, wishes, ids, fns, ops>>

Whole == part = "ids" /\ Len(ids) = Len(wishes)
Good == Whole => GoodIds(wishes, ids)
Free == part = "ids" /\ Len(ids) < Len(wishes) => Pool \ Taken # {}
Isolated == [][\A f \in Fns : Len(ops') > 0 /\ ops'[Len(ops')].f # f => fns'[f] = fns[f]]_<<part, wishes, ids, fns, ops>>
\* The list of a function: the decorations since it last became a wrapper, after what the wrapped function had then
RECURSIVE Decorations(_, _)
Decorations(f, n) ==
    IF n = 0 THEN [rtest |-> <<>>, pytest |-> <<>>]
    ELSE LET o == ops[n]
             before == Decorations(f, n - 1)
         IN IF o.f # f THEN before
            ELSE IF o.op = "wrap" THEN Decorations(o.from, n - 1)
            ELSE [before EXCEPT ![o.fam] = Append(@, o.d)]
Lists == \A f \in Fns : Decorations(f, Len(ops)) = [rtest |-> fns[f].rtest, pytest |-> fns[f].pytest]
\* The product has every combination once, in lexical order
TheDecs == <<[entries |-> <<1, 2, 3>>], [entries |-> <<1, 2>>]>>
Product == \A f \in Fns :
    LET q == fns[f].rtest
        ds == [i \in 1..Len(q) |-> TheDecs[q[i]]]
        cs == Combos(ds)
    IN /\ \A t \in [1..Len(ds) -> 1..3] : (\A i \in 1..Len(ds) : t[i] <= Len(ds[i].entries)) <=> Cardinality({k \in 1..Len(cs) : cs[k] = t}) = 1
       /\ \A k \in 1..(Len(cs) - 1) : \E i \in 1..Len(ds) : cs[k][i] < cs[k + 1][i] /\ \A j \in 1..(i - 1) : cs[k][j] = cs[k + 1][j]
Scenarios == /\ (part = "ids" /\ ids = <<>>) => PrintT(<<"IDS", ToJson(wishes)>>)
             /\ (part = "ops" /\ Len(ops) = MaxOps) => PrintT(<<"OPS", ToJson(ops)>>)
=============================================================================
