------------------------------ MODULE CollectMC ------------------------------
(* Design: collection starts from the given paths (or the configured ones, or the root) and visits one node per step, depth
   first and by name; a node met again on another way is not visited twice.  Explored for every list of given paths over one tree
   that has every kind of directory and file; the tests and errors found are compared with Collect's definition. *)
EXTENDS Collect, Json
CONSTANTS Dump, MaxGiven
VARIABLES cfg, todo, seen, tests, errors, phase
vars == <<cfg, todo, seen, tests, errors, phase>>

Str == << <<114>>, <<115,117,98>>, <<46,104>>, <<116,101,115,116,95,97,46,112,121>>,                            \* r sub .h test_a.py
          <<98,95,116,101,115,116,46,112,121>>, <<120,46,112,121>>, <<116,101,115,116,95,99,46,116,120,116>>, \* b_test.py x.py test_c.txt
          <<46,104,95,116,101,115,116,46,112,121>>, <<98,117,105,108,100>>, <<111>>,                          \* .h_test.py build o
          <<116,101,115,116,95,98,97,100,46,112,121>>, <<116,101,115,116,95,102>>, <<84,101,115,116,67>>,     \* test_bad.py test_f TestC
          <<109,105,115,115,105,110,103>>, <<104,101,108,112>> >>                                             \* missing help
Mods == << [bad |-> FALSE, funcs |-> <<[n |-> 12, kind |-> "fun", ref |-> 0], [n |-> 15, kind |-> "fun", ref |-> 0]>>], [bad |-> TRUE, funcs |-> <<>>] >>
Classes == << [m |-> 1, n |-> 13, init |-> FALSE, attrs |-> <<[n |-> 12, kind |-> "fun", ref |-> 0]>>, bases |-> <<>>] >>
DirPaths == { <<1>>, <<1, 2>>, <<1, 3>>, <<1, 2, 9>>, <<1, 9>>, <<10>> }
FilePaths == {d \o <<n>> : d \in {<<1>>, <<1, 2>>, <<1, 9>>}, n \in {4, 8}} \cup {<<1, 2, 5>>, <<1, 2, 6>>, <<1, 2, 7>>, <<1, 2, 11>>,
                <<1, 3, 4>>, <<1, 2, 9, 4>>, <<10, 4>>}
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seqs(S \ {x})
Tree == Seqs({[p |-> d, kind |-> "dir", mod |-> 0] : d \in DirPaths}
             \cup {[p |-> f, kind |-> "file", mod |-> IF f[Len(f)] = 11 THEN 2 ELSE 1] : f \in FilePaths})
GivenPaths == { <<1>>, <<1, 2>>, <<1, 3>>, <<1, 9>>, <<1, 2, 4>>, <<1, 2, 6>>, <<1, 2, 11>>, <<10>>, <<1, 14>>, <<1, 2, 8>> }
FilePats == { << <<116,101,115,116,95,42,46,112,121>>, <<42,95,116,101,115,116,46,112,121>> >>, << <<42>> >> }  \* test_*.py *_test.py   *
Configs == [names : {Str}, tree : {Tree}, root : {<<1>>}, files : FilePats, classpats : {<< <<84,101,115,116,42>> >>},
            funcpats : {<< <<116,101,115,116,42>> >>}, mods : {Mods}, classes : {Classes},
            given : UNION {[1..n -> GivenPaths] : n \in 0..MaxGiven}, testpaths : {<<>>, << <<1, 2>>, <<1, 9>> >>}]
Node(p) == CHOOSE x \in Nodes(cfg) : x.p = p
Init == /\ cfg \in Configs
        /\ todo = (IF Missing(cfg) # {} THEN <<>> ELSE [i \in 1..Len(Starts(cfg)) |-> Node(Starts(cfg)[i])])
        /\ seen = {} /\ tests = <<>> /\ errors = <<>>
        /\ phase = IF Missing(cfg) # {} THEN "refused" ELSE "walk"
Children(p) == {x \in Nodes(cfg) : Len(x.p) = Len(p) + 1 /\ IsPre(p, x.p)}
Below(p) == {y \in Children(p) : y.kind = "dir" => ~NotSearched(Chars(cfg, y.p[Len(y.p)]))}
RECURSIVE ByName(_)
ByName(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x = y \/ PathLess(cfg, x.p, y.p) IN <<x>> \o ByName(S \ {x})
Step == /\ phase = "walk" /\ todo # <<>>
        /\ LET x == Head(todo)
           IN IF x \in seen THEN todo' = Tail(todo) /\ UNCHANGED <<seen, tests, errors>>
              ELSE /\ seen' = seen \cup {x}
                   /\ todo' = (IF x.kind = "dir" THEN ByName(Below(x.p)) ELSE <<>>) \o Tail(todo)
                   /\ IF x.kind = "file" /\ Fits(cfg, x.p)
                      THEN /\ tests' = tests \o Seqs(TestsOf(cfg, x))
                           /\ errors' = IF Broken(cfg, x.mod) THEN Append(errors, x.p) ELSE errors
                      ELSE UNCHANGED <<tests, errors>>
        /\ UNCHANGED <<cfg, phase>>
Finish == phase = "walk" /\ todo = <<>> /\ phase' = "done" /\ UNCHANGED <<cfg, todo, seen, tests, errors>>
Spec == Init /\ [][Step \/ Finish]_vars
Complete == phase = "done" => Range(tests) = Tests(cfg) /\ Range(errors) = {x.p : x \in Errors(cfg)}
Once == Cardinality(Range(tests)) = Len(tests) /\ Cardinality(Range(errors)) = Len(errors)
\* The walk leads to the order that Collect describes without one
Ordered == phase = "done" => FilesInOrder(cfg, tests)
Refused == phase = "refused" => tests = <<>>
\* Collecting more paths never loses a test
Monotone == phase = "done" => \A i \in 1..Len(cfg.given) : Tests([cfg EXCEPT !.given = <<cfg.given[i]>>]) \subseteq Range(tests)
Scenarios == (Dump /\ phase # "walk") => PrintT(<<"SCN", ToJson([given |-> cfg.given, testpaths |-> cfg.testpaths, files |-> cfg.files])>>)
TreeDump == (Dump /\ phase = "done" /\ cfg.given = <<>> /\ cfg.testpaths = <<>> /\ Len(cfg.files) = 1)
               => PrintT(<<"TREE", ToJson([names |-> Str, tree |-> Tree])>>)
=============================================================================
