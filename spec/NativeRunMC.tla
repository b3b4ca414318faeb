----------------------------- MODULE NativeRunMC -----------------------------
(* Design of a native run with W workers: the main process starts all of them, each runs its tests, delivers a results
   file and ends - or is hit by a fault before, while or after delivering; the main process joins them in order, reads
   the results files, counts and returns.  All assignments of outcomes and all interleavings; the invariants are C13,
   C14 and C18 on the design.  Outcome assignments with an order of completion are printed as scenarios. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, Barrier

\* what a worker leaves behind: exit status (-1: by signal, -2: never started), results file, what is in it
Kinds == [ok |-> [exit |-> 0, file |-> "whole", bad |-> "none"],
          fails |-> [exit |-> 1, file |-> "whole", bad |-> "failed"],
          errs |-> [exit |-> 1, file |-> "whole", bad |-> "error"],
          hidden |-> [exit |-> 0, file |-> "whole", bad |-> "failed"],
          odd |-> [exit |-> 0, file |-> "whole", bad |-> "unknown"],
          silent |-> [exit |-> 1, file |-> "whole", bad |-> "none"],
          crash |-> [exit |-> 77, file |-> "whole", bad |-> "none"],
          killed |-> [exit |-> -1, file |-> "whole", bad |-> "none"],
          gone |-> [exit |-> -1, file |-> "none", bad |-> "none"],
          vanished |-> [exit |-> 0, file |-> "none", bad |-> "none"],
          cut |-> [exit |-> 0, file |-> "cut", bad |-> "none"],
          nostart |-> [exit |-> -2, file |-> "none", bad |-> "none"]]
VARIABLES plan, state, delivered, order, joined, errors, counted, tmp, ret
vars == <<plan, state, delivered, order, joined, errors, counted, tmp, ret>>

Init == /\ plan \in [1..W -> DOMAIN Kinds]
        /\ state = [w \in 1..W |-> "none"] /\ delivered = [w \in 1..W |-> "none"] /\ order = <<>> /\ joined = 0
        /\ errors = 0 /\ counted = [none |-> 0, failed |-> 0, error |-> 0, unknown |-> 0] /\ tmp = TRUE /\ ret = -9
AllSpawned == \A w \in 1..W : state[w] # "none"
Spawn(w) == /\ state[w] = "none" /\ \A v \in 1..(w - 1) : state[v] # "none"
            /\ state' = [state EXCEPT ![w] = IF plan[w] = "nostart" THEN "ended" ELSE "running"]
            /\ UNCHANGED <<plan, delivered, order, joined, errors, counted, tmp, ret>>
Deliver(w) == /\ state[w] = "running" /\ delivered[w] = "none" /\ Kinds[plan[w]].file # "none"
              /\ delivered' = [delivered EXCEPT ![w] = Kinds[plan[w]].file]
              /\ UNCHANGED <<plan, state, order, joined, errors, counted, tmp, ret>>
\* With Barrier, workers end only when every worker has been started: the run still terminates (C09)
End(w) == /\ state[w] = "running" /\ (Barrier => AllSpawned) /\ delivered[w] = Kinds[plan[w]].file
          /\ state' = [state EXCEPT ![w] = "ended"] /\ order' = Append(order, w)
          /\ UNCHANGED <<plan, delivered, joined, errors, counted, tmp, ret>>
Join == /\ AllSpawned /\ joined < W /\ state[joined + 1] = "ended" /\ joined' = joined + 1
        /\ LET k == Kinds[plan[joined + 1]]
               unread == delivered[joined + 1] # "whole"
               unexplained == k.exit = 1 /\ ~unread /\ k.bad = "none"
           IN /\ errors' = IF unread \/ k.exit \notin {0, 1} \/ unexplained THEN errors + 1 ELSE errors
              /\ counted' = IF unread THEN counted ELSE [counted EXCEPT ![k.bad] = @ + 1]
        /\ UNCHANGED <<plan, state, delivered, order, tmp, ret>>
Return == /\ joined = W /\ ret = -9 /\ tmp' = FALSE
          /\ ret' = IF errors > 0 \/ counted.failed + counted.error + counted.unknown > 0 THEN 1 ELSE 0
          /\ UNCHANGED <<plan, state, delivered, order, joined, errors, counted>>
Next == Join \/ Return \/ \E w \in 1..W : Spawn(w) \/ Deliver(w) \/ End(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == ret # -9
Honest == Done => (ret = 0 <=> \A w \in 1..W : plan[w] = "ok")
Counts == Done => \A b \in DOMAIN counted : counted[b] = Cardinality({w \in 1..W : Kinds[plan[w]].file = "whole" /\ Kinds[plan[w]].bad = b})
NotEarly == Done => \A w \in 1..W : state[w] = "ended"
Clean == Done => ~tmp
Terminates == <>Done
Scenarios == Done => PrintT(<<"SCN", ToJson([plan |-> plan, order |-> order])>>)
=============================================================================
