------------------------------ MODULE ConfigMC ------------------------------
(* Design: settings are read one after another, in any order, into a record that starts out empty; each reading depends
   on its own setting only.  Every combination of shapes of the four settings is explored and printed. *)
EXTENDS Config, TLC, Json
CONSTANT Dump
VARIABLES cfg, got

It(b, v) == [str |-> b, v |-> v]
Shapes == { [kind |-> "absent", items |-> <<>>], [kind |-> "string", items |-> <<>>], [kind |-> "array", items |-> <<>>],
            [kind |-> "array", items |-> <<It(TRUE, 1)>>], [kind |-> "array", items |-> <<It(TRUE, 1), It(FALSE, 0), It(TRUE, 2)>>],
            [kind |-> "table", items |-> <<>>] }
Init == /\ cfg \in [file : {"ok"}, section : {TRUE}, set : [Settings -> Shapes]]
                   \cup [file : {"ok", "missing", "invalid", "unreadable", "dir"}, section : {FALSE},
                         set : {[k \in Settings |-> [kind |-> "absent", items |-> <<>>]]}]
        /\ got = [k \in {} |-> <<>>]
Read(k) == /\ k \notin DOMAIN got
           /\ got' = [x \in DOMAIN got \cup {k} |-> IF x = k THEN Value(cfg, k) ELSE got[x]]
           /\ UNCHANGED cfg
\* The order of reading cannot matter: one order is explored
Next == \E k \in Settings : Read(k) /\ \A j \in Settings : j \notin DOMAIN got => k = CHOOSE x \in Settings \ DOMAIN got : TRUE
Spec == Init /\ [][Next]_<<cfg, got>>
\* Independent statement: the i-th entry read is the i-th string entry, nothing else is read
Exact == \A k \in DOMAIN got :
    LET items == cfg.set[k].items
        pos == {i \in 1..Len(items) : items[i].str}
    IN IF Usable(cfg) /\ cfg.set[k].kind = "array"
       THEN /\ Len(got[k]) = Cardinality(pos)
            /\ \A i \in pos : got[k][Cardinality({j \in pos : j <= i})] = items[i].v
       ELSE got[k] = <<>>
Scenarios == (Dump /\ DOMAIN got = {}) => PrintT(<<"SCN", ToJson(cfg)>>)
=============================================================================
