------------------------------ MODULE SubprojMC ------------------------------
(* Design: the search for the subproject of one file walks up from the file's real directory, one directory per step,
   and stops at the first marker or at the root.  TLC explores every placement of markers and links in a fixed tree and
   every file; the outcome is compared with the declarative definition, and rewriting is checked to denote the same
   file.  Every tree is printed as a scenario. *)
EXTENDS Subproj, TLC, Json
CONSTANT Dump
VARIABLES tree, f, cur, phase

Dirs == {<<"r">>, <<"r", "a">>, <<"r", "a", "b">>, <<"r", "ab">>, <<"r", "a", "b", "c">>, <<"o">>}
Root == <<"r">>
D(p) == [p |-> p, kind |-> "dir", to |-> <<>>]
Fi(p) == [p |-> p, kind |-> "file", to |-> <<>>]
L(p, to) == [p |-> p, kind |-> "link", to |-> to]
LinkSets == { <<>>,
              << L(<<"r", "l.py">>, <<"a", "b", "t.py">>) >>,              \* root file -> subproject
              << L(<<"r", "a", "l.py">>, <<"..", "t.py">>) >>,             \* subproject file -> root
              << L(<<"r", "a", "l.py">>, <<"..", "..", "o", "t.py">>) >>,  \* -> outside
              << L(<<"r", "l">>, <<"a", "b">>) >>,                         \* directory link
              << L(<<"r", "ab", "l">>, <<"..", "a">>), L(<<"r", "ab", "l.py">>, <<"l", "b", "t.py">>) >>, \* chain
              << L(<<"r", "a", "l.py">>, <<"l.py">>) >>,                   \* loop
              << L(<<"r", "l">>, <<"..", "o">>) >> }
RECURSIVE Seqs(_)
Seqs(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seqs(S \ {x})
Trees == {Seqs({D(d) : d \in Dirs} \cup {Fi(d \o <<"t.py">>) : d \in Dirs} \cup {Fi(d \o <<"pyproject.toml">>) : d \in M}) \o ls
            : M \in SUBSET Dirs, ls \in LinkSets}
Files == { <<"t.py">>, <<"a", "t.py">>, <<"a", "b", "t.py">>, <<"ab", "t.py">>, <<"a", "b", "c", "t.py">>, <<"l.py">>,
           <<"a", "l.py">>, <<"l", "t.py">>, <<"ab", "l", "t.py">>, <<"ab", "l.py">>, <<"a", "..", "t.py">>, <<".", "a", "t.py">>,
           <<"ab", "..", "a", "b", "t.py">>, <<"..", "o", "t.py">>, <<"..", "r", "a", "t.py">>, <<"a", "none.py">>, <<"none", "t.py">>,
           <<"l", "none.py">> }

Init == /\ tree \in Trees
        /\ f \in Files
        /\ LET r == Resolve(tree, Root \o f)
           IN IF r # Missing /\ Under(Root, r) THEN cur = Parent(r) /\ phase = "up" ELSE cur = Root /\ phase = "done"
        /\ TRUE
Up == /\ phase = "up"
      /\ IF cur = Root \/ Marked(tree, cur) THEN phase' = "done" /\ cur' = cur
         ELSE cur' = Parent(cur) /\ phase' = "up"
      /\ UNCHANGED <<tree, f>>
Spec == Init /\ [][Up]_<<tree, f, cur, phase>>

Right == phase = "done" => (Home(tree, Root, f) # Missing => cur = Home(tree, Root, f))
Inside == Under(Root, cur)
\* Rewriting: by text when possible, else by the real location, else unchanged
Rel == LET lex == Root \o f
           real == Resolve(tree, lex)
       IN IF IsPrefix(cur, lex) THEN SubSeq(lex, Len(cur) + 1, Len(lex))
          ELSE IF real # Missing /\ IsPrefix(cur, real) THEN SubSeq(real, Len(cur) + 1, Len(real)) ELSE f
Denotes == phase = "done" => Same(tree, cur \o Rel, Root \o f)
Scenarios == (Dump /\ f = <<"t.py">> /\ phase = "done") => PrintT(<<"SCN", ToJson([tree |-> tree, root |-> Root])>>)
=============================================================================
