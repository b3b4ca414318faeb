---- MODULE CasesTrace ----
(* Trace validation: every recorded event is consumed by one step of Cases; the clauses it breaks are printed. *)
EXTENDS Cases, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, s
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = Start(Traces[t].cfg)
Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1]
               v == Viol(s, e)
           IN /\ v = {} \/ PrintT(<<"VIOL", ToJson([t |-> t, l |-> l + 1, c |-> v])>>)
              /\ s' = Apply(s, e)
        /\ l' = l + 1
        /\ t' = t
Spec == Init /\ [][Next]_<<t, l, s>>
====
