------------------------------ MODULE WorkerMC ------------------------------
(* Design of the worker's main loop over T test methods: construct, set up, run, tear down, record.  Each phase may
   complete, raise an assertion error or raise something else; the invariants are C20-C22 on the design.  Every complete
   behaviour is printed as a scenario. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS T
Kinds == {"ok", "assert", "other"}
VARIABLES i, phase, log, records
vars == <<i, phase, log, records>>
\* log[j]: outcome of the phases of test j that were begun
Init == i = 1 /\ phase = "new" /\ log = [j \in 1..T |-> <<>>] /\ records = <<>>
Step(ph, k) == log' = [log EXCEPT ![i] = Append(@, [ph |-> ph, k |-> k])]
New == phase = "new" /\ \E k \in Kinds : Step("new", k) /\ phase' = (IF k = "ok" THEN "setup" ELSE "record") /\ UNCHANGED <<i, records>>
Setup == phase = "setup" /\ \E k \in Kinds : Step("setup", k) /\ phase' = (IF k = "ok" THEN "body" ELSE "record") /\ UNCHANGED <<i, records>>
Body == phase = "body" /\ \E k \in Kinds : Step("body", k) /\ phase' = "teardown" /\ UNCHANGED <<i, records>>
Teardown == phase = "teardown" /\ \E k \in Kinds : Step("teardown", k) /\ phase' = "record" /\ UNCHANGED <<i, records>>
Last(q) == LET R == {j \in 1..Len(q) : q[j].k # "ok"} IN IF R = {} THEN "ok" ELSE q[CHOOSE j \in R : \A m \in R : m <= j].k
Outcome(q) == CASE Last(q) = "ok" -> "passed" [] Last(q) = "assert" -> "failed" [] OTHER -> "error"
Record == /\ phase = "record" /\ records' = Append(records, Outcome(log[i]))
          /\ IF i < T THEN i' = i + 1 /\ phase' = "new" ELSE i' = i /\ phase' = "exit"
          /\ UNCHANGED log
Next == New \/ Setup \/ Body \/ Teardown \/ Record
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Has(j, ph) == \E m \in 1..Len(log[j]) : log[j][m].ph = ph
Kind(j, ph) == log[j][CHOOSE m \in 1..Len(log[j]) : log[j][m].ph = ph].k
OneRecordEach == phase = "exit" => Len(records) = T
PassedMeansAllRan == \A j \in 1..Len(records) : records[j] = "passed" <=> /\ \A ph \in {"new", "setup", "body", "teardown"} : Has(j, ph)
                                                                         /\ \A m \in 1..Len(log[j]) : log[j][m].k = "ok"
NoBodyAfterBadSetup == \A j \in 1..T : Has(j, "body") => Has(j, "setup") /\ Kind(j, "setup") = "ok"
TeardownOnceSetUp == \A j \in 1..Len(records) : Has(j, "teardown") <=> (Has(j, "setup") /\ Kind(j, "setup") = "ok")
Terminates == <>(phase = "exit")
Scenarios == phase = "exit" => PrintT(<<"SCN", ToJson(log)>>)
=============================================================================
