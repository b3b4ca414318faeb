------------------------------- MODULE Subproj -------------------------------
(* Grouping of collected tests by subproject and rewriting of their ids (C04, C05).
   The configuration is a tree, the path of the root, and the ids [f |-> path of the file from the root]. One event per
   group: its directory, the identities of its ids, and the rewritten ids [f |-> path, t |-> identity of the text after
   the first `::' (0: not the text of that id)]. *)
EXTENDS Paths

Under(root, p) == IsPrefix(root, p)
\* Directories strictly below the root that enclose p
Enclosing(root, p) == {SubSeq(p, 1, i) : i \in (Len(root) + 1)..(Len(p) - 1)}
Marked(tree, d) == Exists(tree, d \o <<"pyproject.toml">>)
Nearest(tree, root, p) ==
    LET D == {d \in Enclosing(root, p) : Marked(tree, d)}
    IN IF D = {} THEN root ELSE CHOOSE d \in D : \A x \in D : Len(x) <= Len(d)
\* Where the test of a file belongs; Missing when the statement leaves it open
Home(tree, root, f) == LET r == Resolve(tree, root \o f)
                       IN IF r = Missing THEN Missing
                          ELSE IF Under(root, r) THEN Nearest(tree, root, r) ELSE root

Start(c) == [c |-> c, todo |-> [i \in 1..Len(c.ids) |-> c.ids[i].times], dirs |-> {}]
CountIn(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})

ViolGroup(s, e) ==
    LET known == {i \in 1..Len(e.ids) : e.ids[i] \in DOMAIN s.todo}
        F(i) == s.c.ids[e.ids[i]].f
    IN (IF \E i \in 1..Len(e.ids) : i \notin known \/ CountIn(e.ids, e.ids[i]) > s.todo[e.ids[i]] THEN {"C04.foreign"} ELSE {})
       \cup (IF \E i \in known : LET h == Home(s.c.tree, s.c.root, F(i)) IN h # Missing /\ h # e.dir THEN {"C04.place"} ELSE {})
       \cup (IF e.dir \in s.dirs THEN {"C04.twice"} ELSE {})
       \cup (IF Len(e.rel) # Len(e.ids) THEN {"C05.count"}
             ELSE (IF \E i \in known : e.rel[i].t # e.ids[i] THEN {"C05.tail"} ELSE {})
                  \cup (IF \E i \in known : ~Same(s.c.tree, e.dir \o e.rel[i].f, s.c.root \o F(i)) THEN {"C05.denotes"} ELSE {}))

Viol(s, e) == CASE e.ev = "group" -> ViolGroup(s, e)
                [] e.ev = "done" -> IF \E i \in DOMAIN s.todo : s.todo[i] > 0 THEN {"C04.lost"} ELSE {}
                [] OTHER -> {"C04.fail", "C05.fail"}
Sub(a, b) == IF a > b THEN a - b ELSE 0
Apply(s, e) == IF e.ev = "group"
               THEN [s EXCEPT !.todo = [i \in DOMAIN s.todo |-> Sub(s.todo[i], CountIn(e.ids, i))], !.dirs = @ \cup {e.dir}]
               ELSE s
=============================================================================
