-------------------------------- MODULE Tree --------------------------------
(* Directory trees and the names that are left out of them.
   Paths are sequences of names from the top; a name is an index into c.names, whose entries are sequences of code
   points.  c.tree is a sequence of nodes with p, kind ("dir", "file" or "link") and, for a link, `to': a path without links
   to something that has no links below it, or to nothing. *)
EXTENDS Glob, TLC

IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Chars(c, i) == c.names[i]
DOT == 46
Pycache == <<95, 95, 112, 121, 99, 97, 99, 104, 101, 95, 95>>
DotPy == <<46, 112, 121>>
\* Names never entered or run below a given path
Hidden(n) == n[1] = DOT \/ n = Pycache
\* Directories that are not searched unless given: _darcs build CVS dist node_modules venv {arch} and *.egg
NoRecurse == { <<95,100,97,114,99,115>>, <<98,117,105,108,100>>, <<67,86,83>>, <<100,105,115,116>>,
               <<110,111,100,101,95,109,111,100,117,108,101,115>>, <<118,101,110,118>>, <<123,97,114,99,104,125>> }
DotEgg == <<46, 101, 103, 103>>
NotSearched(n) == Hidden(n) \/ n \in NoRecurse \/ (Len(n) >= 4 /\ SubSeq(n, Len(n) - 3, Len(n)) = DotEgg)
EndsPy(n) == Len(n) > 3 /\ SubSeq(n, Len(n) - 2, Len(n)) = DotPy

Raw(c) == {x \in {c.tree[i] : i \in 1..Len(c.tree)} : x.kind # "link"}
Links(c) == {x \in {c.tree[i] : i \in 1..Len(c.tree)} : x.kind = "link"}
\* Links are followed: what is below their target is there under the link's path as well
Nodes(c) == Raw(c) \cup UNION {{[x EXCEPT !.p = l.p \o SubSeq(x.p, Len(l.to) + 1, Len(x.p))] : x \in {x \in Raw(c) : IsPre(l.to, x.p)}} : l \in Links(c)}
Kind(c, p) == IF \E x \in Nodes(c) : x.p = p THEN (CHOOSE x \in Nodes(c) : x.p = p).kind ELSE "none"
=============================================================================
