------------------------------- MODULE FilesMC -------------------------------
(* Design: discovery walks the tree with a stack, one directory entry per step, in any order; a given directory is
   entered whatever its name, hidden entries met on the way are not.  Explored for every pair of given paths and several
   pattern lists over one tree that has every kind of directory; the found files are compared with the declarative
   definition at the end, and found at most once per given path. *)
EXTENDS Files, Json
CONSTANTS Dump, MaxGiven
VARIABLES cfg, stack, found, phase

Str == << <<114>>, <<115,117,98>>, <<46,104>>, Pycache, <<116,101,115,116,95,97,46,112,121>>,             \* r sub .h __pycache__ test_a.py
          <<98,95,116,101,115,116,46,112,121>>, <<120,46,112,121>>, <<116,101,115,116,95,99,46,116,120,116>>, \* b_test.py x.py test_c.txt
          <<46,116,101,115,116,95,104,46,112,121>>, <<115,117,98,46,112,121>>, <<111>>,                      \* .test_h.py sub.py o
          <<98,117,105,108,100>>, <<97,46,101,103,103>>, <<98,117,105,108,100,115>>,                          \* build a.egg builds
          <<116,101,115,116,95,122,46,101,103,103>> >>                                                        \* test_z.egg
TestA == 5
DirPaths == { <<1>>, <<1, 2>>, <<1, 3>>, <<1, 2, 3>>, <<1, 2, 4>>, <<1, 2, 2>>, <<1, 3, 2>>, <<1, 10>>, <<11>>, <<1, 12>>, <<1, 2, 13>>, <<1, 12, 2>>, <<1, 14>> }
FileNames == {5, 6, 7, 8, 9, 15}
FilePaths == {d \o <<n>> : d \in DirPaths, n \in FileNames}
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seqs(S \ {x})
Tree == Seqs({[p |-> d, kind |-> "dir"] : d \in DirPaths} \cup {[p |-> f, kind |-> "file"] : f \in FilePaths})
GivenPaths == { <<1>>, <<1, 2>>, <<1, 3>>, <<1, 2, 3>>, <<1, 2, 4>>, <<1, 10>>, <<11>>, <<1, 2, 5>>, <<1, 2, 9>>, <<1, 2, 7>>,
                <<1, 3, 5>>, <<1, 99>>, <<1, 2, 2>>, <<1, 12>>, <<1, 12, 2>>, <<1, 2, 13>> }
PatternLists == { << <<116,101,115,116,95,42,46,112,121>>, <<42,95,116,101,115,116,46,112,121>> >>,   \* test_*.py *_test.py
                  << <<42>> >>, << <<42,46,112,121>> >>,                                              \* *  *.py
                  << <<91,116,120,93,42>> >>, << <<63,46,112,121>>, <<116,101,115,116,95,97,46,112,121>> >>, <<>> }
Configs == [names : {Str}, tree : {Tree}, root : {<<1>>}, patterns : PatternLists,
            given : UNION {[1..n -> GivenPaths] : n \in 0..MaxGiven}]
Init == /\ cfg \in Configs
        /\ stack = [g \in Givens(cfg) |-> {x \in Nodes(cfg) : x.p = g}]
        /\ found = [g \in Givens(cfg) |-> <<>>]
        /\ phase = "walk"
Children(p) == {x \in Nodes(cfg) : Len(x.p) = Len(p) + 1 /\ IsPre(p, x.p)}
Entered(p) == {y \in Children(p) : LET n == Chars(cfg, y.p[Len(y.p)]) IN IF y.kind = "dir" THEN ~NotSearched(n) ELSE ~Hidden(n)}
\* One given path after another, the smallest pending entry first would be a restriction: any entry may be next, but
\* the order cannot matter, so one fixed choice is explored
Step == /\ phase = "walk"
        /\ \E g \in Givens(cfg) : stack[g] # {}
        /\ LET g == CHOOSE g \in Givens(cfg) : stack[g] # {}
               x == CHOOSE x \in stack[g] : TRUE
           IN IF x.kind = "dir"
              THEN /\ stack' = [stack EXCEPT ![g] = (@ \ {x}) \cup Entered(x.p)]
                   /\ UNCHANGED found
              ELSE /\ stack' = [stack EXCEPT ![g] = @ \ {x}]
                   /\ found' = IF Fits(cfg, x.p) THEN [found EXCEPT ![g] = Append(@, x.p)] ELSE found
        /\ UNCHANGED <<cfg, phase>>
Finish == phase = "walk" /\ (\A g \in Givens(cfg) : stack[g] = {}) /\ phase' = "done" /\ UNCHANGED <<cfg, stack, found>>
Spec == Init /\ [][Step \/ Finish]_<<cfg, stack, found, phase>>
All == UNION {{found[g][i] : i \in 1..Len(found[g])} : g \in Givens(cfg)}
Complete == phase = "done" => All = Expected(cfg)
OncePerPath == \A g \in Givens(cfg) : \A i, j \in 1..Len(found[g]) : found[g][i] = found[g][j] => i = j
NoHidden == \A g \in Givens(cfg) : \A x \in stack[g] : x.p = g \/ ~Hidden(Chars(cfg, x.p[Len(x.p)]))
NoLeftOut == \A g \in Givens(cfg) : \A x \in stack[g] : (x.kind = "dir" /\ x.p # g) => ~NotSearched(Chars(cfg, x.p[Len(x.p)]))
Scenarios == (Dump /\ phase = "done") => PrintT(<<"SCN", ToJson([given |-> cfg.given, patterns |-> cfg.patterns])>>)
TreeDump == (Dump /\ phase = "done" /\ cfg.given = <<>> /\ cfg.patterns = <<>>) => PrintT(<<"TREE", ToJson([names |-> Str, tree |-> Tree])>>)
=============================================================================
