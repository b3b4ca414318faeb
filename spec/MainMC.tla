------------------------------- MODULE MainMC -------------------------------
(* Design: the program checks its options, collects, shows what it found, and then either stops or hands what it collected to
   processes, in any way, each of which runs its share and exits; the exit code is made from theirs.  Explored for every
   combination of options, given paths and projects below; compared with Main's definitions at every step. *)
EXTENDS Main, Integers, TLC, Json
CONSTANT Dump
VARIABLES c, phase, shown, share, ran, codes, code
vars == <<c, phase, shown, share, ran, codes, code>>

Text(given, t) == [given |-> given, text |-> t]
Ns == {Text(FALSE, <<>>), Text(TRUE, <<48>>), Text(TRUE, <<49>>), Text(TRUE, <<50>>), Text(TRUE, <<120>>)}
Maxs == {[given |-> FALSE, v |-> 0], [given |-> TRUE, v |-> 0], [given |-> TRUE, v |-> 1]}
Dists == {Text(FALSE, <<>>), Text(TRUE, <<110, 111>>), Text(TRUE, <<108, 111, 97, 100, 102, 105, 108, 101>>), Text(TRUE, <<110>>)}
A == <<1, 2>>   \* a file with two tests, one of two cases
B == <<1, 3>>   \* a broken file
D == <<1, 4>>   \* an empty directory
N == <<1, 5>>   \* nothing
Fates == [runs : BOOLEAN, ok : BOOLEAN, dies : {FALSE}] \cup {[runs |-> TRUE, ok |-> FALSE, dies |-> TRUE]}
Givens == { <<>>, <<A>>, <<A, A>>, <<B>>, <<D>>, <<N>>, <<A, N>>, << <<1>>, A>> }
Configs == [cli : [n : Ns, max : Maxs, dist : Dists, env : {<<>>}, cpus : {[auto |-> 1, logical |-> 1]}], runner : {"pytest", "native", "api"}, only : BOOLEAN,
            root : {<<1>>}, given : Givens, testpaths : {<<>>}, nodes : {<< <<1>>, A, D, B>>},
            items : {<<[p |-> A, n |-> 1, warns |-> FALSE, scope |-> 1, real |-> A], [p |-> A, n |-> 2, warns |-> TRUE, scope |-> 1, real |-> A]>>},
            cases : {<<[i |-> 1, runs |-> f.runs, ok |-> f.ok, dies |-> f.dies], [i |-> 2, runs |-> TRUE, ok |-> g.ok, dies |-> g.dies],
                       [i |-> 2, runs |-> TRUE, ok |-> TRUE, dies |-> FALSE]>> : f \in Fates, g \in Fates},
            bad : {<<>>, <<B>>}, inits : {<<A>>}, tests : {<<A, B>>}, subs : {<<>>}, counted : {TRUE}]

\* The Python interface has no options
Plain == c.cli.n.given = FALSE /\ c.cli.max.given = FALSE /\ c.cli.dist.given = FALSE /\ ~c.only
Init == c \in Configs /\ (c.runner = "api" => Plain) /\ phase = "start" /\ shown = {} /\ share = << >> /\ ran = <<0, 0, 0>> /\ codes = << >> /\ code = -1
Exit(x) == phase' = "end" /\ code' = x
Check == /\ phase = "start"
         /\ IF Invalid(c) THEN Exit(1) ELSE phase' = "collect" /\ UNCHANGED code
         /\ UNCHANGED <<c, shown, share, ran, codes>>
Collect == /\ phase = "collect"
           /\ IF Missing(c) THEN Exit(4) /\ UNCHANGED shown ELSE phase' = "decide" /\ shown' = Items(c) /\ UNCHANGED code
           /\ UNCHANGED <<c, share, ran, codes>>
Processes == IF (c.cli.dist.text = <<110, 111>> /\ c.runner = "pytest") \/ c.runner = "api" THEN 1 ELSE IF C!Workers(c.cli) = 0 THEN 1 ELSE C!Workers(c.cli)
\* What belongs together goes to one process, and no process is left out as long as there is enough for all
Spread(h) == /\ \A i, j \in shown : UnitOf(c, i) = UnitOf(c, j) => h[i] = h[j]
             /\ Cardinality({h[i] : i \in shown}) = Lesser(Processes, Cardinality(Units(c, c.root)))
Decide == /\ phase = "decide"
          /\ IF Bad(c) # {} THEN Exit(1) /\ UNCHANGED <<share, codes>>
             ELSE IF shown = {} \/ c.only THEN Exit(0) /\ UNCHANGED <<share, codes>>
             ELSE /\ phase' = "run" /\ UNCHANGED code
                  /\ share' \in {h \in [shown -> 1..Processes] : Spread(h)}
                  /\ codes' = [q \in 1..Processes |-> -1]
          /\ UNCHANGED <<c, shown, ran>>
Mine(q) == {k \in 1..3 : \E i \in shown : share[i] = q /\ c.cases[k].i = i}
\* A process runs its cases, in any order, up to one that ends it, and exits, before or after any other
Process(q) == /\ phase = "run" /\ codes[q] = -1
              /\ \E S \in SUBSET {k \in Mine(q) : c.cases[k].runs} :
                    LET last == {k \in S : c.cases[k].dies}
                    IN /\ IF last = {} THEN S = {k \in Mine(q) : c.cases[k].runs} ELSE Cardinality(last) = 1
                       /\ ran' = [k \in 1..3 |-> ran[k] + IF k \in S THEN 1 ELSE 0]
              /\ codes' = [codes EXCEPT ![q] = IF \A k \in Mine(q) : c.cases[k].ok THEN 0 ELSE 1]
              /\ UNCHANGED <<c, phase, shown, share, code>>
Finish == /\ phase = "run" /\ \A q \in DOMAIN codes : codes[q] # -1
          /\ Exit(IF \A q \in DOMAIN codes : codes[q] = 0 THEN 0 ELSE 1)
          /\ UNCHANGED <<c, shown, share, ran, codes>>
Spec == Init /\ [][Check \/ Collect \/ Decide \/ (\E q \in 1..2 : q \in DOMAIN codes /\ Process(q)) \/ Finish]_vars

Exits == phase = "end" => Code(c, code)
Runs == (phase = "end" /\ ~Dying(c)) => \A k \in 1..3 : ran[k] = IF k \in ToRun(c) /\ c.cases[k].runs THEN 1 ELSE 0
NeverMore == \A k \in 1..3 : ran[k] <= 1
Shows == phase \notin {"start", "collect"} => (shown = IF Stage(c) \in {"invalid", "missing"} THEN {} ELSE Items(c))
OnlyThen == (\E k \in 1..3 : ran[k] > 0) => Stage(c) = "run"
Procs == {[home |-> c.root, unit |-> UnitOf(c, i), pid |-> share[i]] : i \in {i \in DOMAIN share : \E k \in 1..3 : c.cases[k].i = i /\ ran[k] > 0}}
Seen == [ran |-> ran, procs |-> Procs, dead |-> {share[c.cases[k].i] : k \in {k \in 1..3 : ran[k] > 0 /\ c.cases[k].dies}}]
Processed == phase = "end" => ViolProcs(Seen, c) = {} /\ (Dying(c) => ViolDead(Seen, c) = {})
Scenarios == (Dump /\ phase = "start") => PrintT(<<"SCN", ToJson([n |-> c.cli.n, max |-> c.cli.max, dist |-> c.cli.dist, runner |-> c.runner, only |-> c.only,
                                                  given |-> c.given, bad |-> c.bad, cases |-> c.cases])>>)
=============================================================================
