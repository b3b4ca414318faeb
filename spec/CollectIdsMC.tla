---------------------------- MODULE CollectIdsMC ----------------------------
(* Design: rtest reads the decorators of a test one by one, and gives pytest either the ids of all cases or, once it cannot
   tell them, the name of the test.  pytest runs what it is given.  Explored for every stack of decorators within the bounds:
   each case runs exactly once.  *)
EXTENDS CollectIds, TLC, Json
CONSTANTS Dump, MaxEntries, MaxEntriesTwo
VARIABLES test, at, told, given, ran, phase
vars == <<test, at, told, given, ran, phase>>

S(x) == [k |-> "str", s |-> x]
T(x) == [k |-> "txt", s |-> x]
B == [k |-> "box", s |-> <<>>]
N == [k |-> "none", s |-> <<>>]
Values == {S(<<97>>), S(<<97, 45, 97>>), S(<<>>), S(<<120, 48>>), S(<<10>>), S(<<55>>), T(<<55>>), B}   \* a a-a "" x0 newline "7" 7 []
Few == {S(<<97>>), S(<<97, 45, 97>>), T(<<55>>), B}
Dec(names, vals, max, idvs) ==
    UNION {[names : {names}, entries : [1..n -> [1..Len(names) -> vals]], ids : IF idvs = {} THEN {<<>>} ELSE [1..n -> idvs],
            given : {idvs # {}}, shared : {"no"}, static : BOOLEAN] : n \in 1..max}
Tests == [decs : {<<d>> : d \in Dec(<< <<120>> >>, Values, MaxEntries, {}) \cup Dec(<< <<120>>, <<121>> >>, Few, MaxEntriesTwo, {})
                                  \cup Dec(<< <<120>> >>, Few, MaxEntriesTwo, {N, S(<<97>>), T(<<55>>)})}
                 \cup {<<d, f>> : d \in Dec(<< <<120>> >>, Few, MaxEntriesTwo, {}), f \in Dec(<< <<121>> >>, Few, MaxEntriesTwo, {})},
          native : {FALSE}]

Init == test \in Tests /\ at = 1 /\ told = TRUE /\ given = <<>> /\ ran = <<>> /\ phase = "read"
\* The ids of a decorator are told, if at all, only where they are all different: rtest does not number them
Read == /\ phase = "read" /\ at <= Len(test.decs)
        /\ told' = (told /\ test.decs[at].static /\ Distinct(RawIds(test.decs[at])))
        /\ at' = at + 1
        /\ UNCHANGED <<test, given, ran, phase>>
Give == /\ phase = "read" /\ at > Len(test.decs)
        /\ LET ids == Combine([d \in 1..Len(test.decs) |-> RawIds(test.decs[d])])
               joined == [k \in 1..Len(ids) |-> Join(ids[k])]
           IN given' = IF told /\ Distinct(joined) THEN joined ELSE << >>
        /\ phase' = "given"
        /\ UNCHANGED <<test, at, told, ran>>
\* pytest runs, for every id it is given, all the cases that have it; without an id all cases
Run == /\ phase = "given"
       /\ LET all == Cases(test)
          IN ran' = [k \in 1..Len(all) |-> IF given = <<>> THEN 1 ELSE Count(all[k], given)]
       /\ phase' = "done"
       /\ UNCHANGED <<test, at, told, given>>
Spec == Init /\ [][Read \/ Give \/ Run]_vars

Once == phase = "done" => \A k \in DOMAIN ran : ran[k] = 1
Found == phase = "done" => Range(given) \subseteq Range(Cases(test))
Unique == \A d \in 1..Len(test.decs) : Distinct(DecoratorIds(test.decs[d]))
Printable == \A k \in DOMAIN Cases(test) : \A c \in Range(Cases(test)[k]) : c \in 32..126
Expanded == phase = "done" /\ Certain(test) => given # <<>>
Scenarios == (Dump /\ phase = "done") => PrintT(<<"SCN", ToJson(test)>>)
=============================================================================
