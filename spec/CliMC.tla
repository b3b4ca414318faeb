-------------------------------- MODULE CliMC --------------------------------
(* Design of the two small machines behind the command line.
   Workers: the wanted number is fixed first, then capped.  Environment: entries are taken one by one; each is split and
   applied to the environment of the processes, or dropped.  All combinations over a small universe, printed as scenarios. *)
EXTENDS Cli, TLC, Json
CONSTANTS Dump, MaxEntries
VARIABLES cfg, i, env, pairs, count, phase

T(x) == [given |-> TRUE, text |-> x]
None == [given |-> FALSE, text |-> <<>>]
Ns == {None, T(Auto), T(Logical), T(<<48>>), T(<<49>>), T(<<51>>), T(<<48, 52>>), T(<<49, 54>>), T(<<>>), T(<<120>>), T(<<51, 46, 53>>),
       T(<<65, 85, 84, 79>>), T(<<50, 32>>), T(<<97, 117, 116>>), T(<<108, 111, 103, 105, 99>>), T(<<49, 120>>)}
Maxs == {[given |-> FALSE, v |-> 0]} \cup {[given |-> TRUE, v |-> m] : m \in {0, 1, 2, 3, 16}}
Dists == {None, T(<<76,111,97,100>>), T(<<>>), T(<<108,111,97>>), T(<<108,111,97,100,115>>), T(<<110,111,110,101>>)} \cup {T(d) : d \in DistModes}
A == 65
B == 66
Entries == { <<A, EQ, B>>, <<A, EQ>>, <<A, EQ, B, EQ, A>>, <<B, EQ, EQ>>, <<A>>, <<B, A, EQ, A>>, <<>>, <<B, EQ, A>> }
Init == /\ cfg \in [n : Ns, max : Maxs, dist : Dists, cpus : {[auto |-> 2, logical |-> 4]}, env : {<<>>}]
                   \cup [n : {None}, max : {[given |-> FALSE, v |-> 0]}, dist : {None}, cpus : {[auto |-> 2, logical |-> 4]},
                         env : UNION {[1..k -> Entries] : k \in 1..MaxEntries}]
        /\ i = 1 /\ env = [k \in {} |-> <<>>] /\ pairs = <<>> /\ count = 0 /\ phase = "env"
Take == /\ phase = "env" /\ i <= Len(cfg.env)
        /\ i' = i + 1
        /\ IF HasEq(cfg.env[i])
           THEN LET p == Split(cfg.env[i])
                IN /\ pairs' = Append(pairs, p)
                   /\ env' = [k \in DOMAIN env \cup {p.k} |-> IF k = p.k THEN p.v ELSE env[k]]
           ELSE UNCHANGED <<pairs, env>>
        /\ UNCHANGED <<cfg, count, phase>>
Want == phase = "env" /\ i > Len(cfg.env) /\ NOk(cfg) /\ count' = Wanted(cfg) /\ phase' = "cap" /\ UNCHANGED <<cfg, i, env, pairs>>
Cap == phase = "cap" /\ count' = (IF cfg.max.given THEN Min(count, cfg.max.v) ELSE count) /\ phase' = "done" /\ UNCHANGED <<cfg, i, env, pairs>>
Spec == Init /\ [][Take \/ Want \/ Cap]_<<cfg, i, env, pairs, count, phase>>
Capped == phase = "done" => /\ count = Workers(cfg)
                            /\ (cfg.max.given => count <= cfg.max.v)
                            /\ (~cfg.n.given /\ ~cfg.max.given => count = 1)
\* Joining a split entry gives the entry back
Faithful == \A k \in 1..Len(pairs) : \E j \in 1..Len(cfg.env) : cfg.env[j] = pairs[k].k \o <<EQ>> \o pairs[k].v /\ ~HasEq(pairs[k].k)
Order == i > Len(cfg.env) => pairs = Pairs(cfg)
Last == i > Len(cfg.env) => \A k \in DOMAIN env : env[k] = LastFor(pairs, k)
Scenarios == (Dump /\ i = 1 /\ phase = "env") => PrintT(<<"SCN", ToJson(cfg)>>)
=============================================================================
