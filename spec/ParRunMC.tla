------------------------------- MODULE ParRunMC -------------------------------
(* Design of a parallel run: the main process starts every worker without waiting, workers run and end in any order
   with any outcome, the main process joins them in worker order, relays, folds the exit statuses and returns.
   All outcomes and all interleavings of W workers; invariants are the properties C07-C09 on the design.  The outcome
   assignments together with an order of completion are printed as scenarios. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, Dump, Barrier

Outcomes == {0, 1, 3, -1, -2}        \* exit status, -1: signal, -2: cannot be started
VARIABLES plan, spawned, state, order, joined, printed, ret
vars == <<plan, spawned, state, order, joined, printed, ret>>

Init == /\ plan \in [1..W -> Outcomes]
        /\ spawned = 0 /\ state = [w \in 1..W |-> "none"] /\ order = <<>> /\ joined = 0 /\ printed = <<>> /\ ret = -9
Spawn == /\ spawned < W /\ spawned' = spawned + 1
         /\ state' = [state EXCEPT ![spawned + 1] = IF plan[spawned + 1] = -2 THEN "failed" ELSE "running"]
         /\ UNCHANGED <<plan, order, joined, printed, ret>>
\* With Barrier, workers end only when every worker has been started: the run still terminates (C09)
End(w) == /\ state[w] = "running" /\ (Barrier => spawned = W) /\ state' = [state EXCEPT ![w] = "ended"] /\ order' = Append(order, w)
          /\ UNCHANGED <<plan, spawned, joined, printed, ret>>
Join == /\ spawned = W /\ joined < W /\ state[joined + 1] \in {"ended", "failed"} /\ joined' = joined + 1
        /\ UNCHANGED <<plan, spawned, state, order, printed, ret>>
Relay == /\ joined = W /\ Len(printed) < W /\ printed' = Append(printed, Len(printed) + 1)
         /\ UNCHANGED <<plan, spawned, state, order, joined, ret>>
RECURSIVE Fold(_, _)
Fold(i, acc) == IF i > W THEN acc ELSE Fold(i + 1, IF plan[i] # 0 THEN plan[i] ELSE acc)
Return == /\ Len(printed) = W /\ ret = -9 /\ ret' = Fold(1, 0)
          /\ UNCHANGED <<plan, spawned, state, order, joined, printed>>
Next == Spawn \/ Join \/ Relay \/ Return \/ \E w \in 1..W : End(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Honest == ret # -9 => (ret = 0 <=> \A w \in 1..W : plan[w] = 0)
StatusOfOne == (ret # -9 /\ ret # 0) => \E w \in 1..W : plan[w] = ret
InOrder == \A i \in 1..Len(printed) : printed[i] = i
NotEarly == ret # -9 => \A w \in 1..W : state[w] \in {"ended", "failed"}
Terminates == <>(ret # -9)
Scenarios == (Dump /\ ret # -9) => PrintT(<<"SCN", ToJson([plan |-> plan, order |-> order])>>)
=============================================================================
