-------------------------------- MODULE Files --------------------------------
(* Native discovery of test files (C11).
   Paths are sequences of names from the top; a name is an index into cfg.names, whose entries are sequences of code
   points.  cfg: tree (nodes with p and kind), root, given (sequence of paths from the top), patterns. *)
EXTENDS Tree

Givens(c) == IF c.given = <<>> THEN {c.root} ELSE {c.given[i] : i \in 1..Len(c.given)}
Fits(c, p) == LET n == Chars(c, p[Len(p)]) IN EndsPy(n) /\ AnyGlob(c.patterns, n)
\* The file p is reached from g: no directory strictly below g on the way to p is left out, nor is p's own name
Reached(c, g, p) == /\ IsPre(g, p)
                    /\ \A i \in (Len(g) + 1)..(Len(p) - 1) : ~NotSearched(Chars(c, p[i]))
                    /\ Len(p) > Len(g) => ~Hidden(Chars(c, p[Len(p)]))
Expected(c) == {x.p : x \in {y \in Nodes(c) : y.kind = "file" /\ Fits(c, y.p) /\ \E g \in Givens(c) : Reached(c, g, y.p)}}

RECURSIVE LessSeq(_, _)
LessSeq(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LessSeq(Tail(a), Tail(b))
RECURSIVE LessPath(_, _, _)
LessPath(c, a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                     ELSE IF Head(a) # Head(b) THEN LessSeq(Chars(c, Head(a)), Chars(c, Head(b)))
                     ELSE LessPath(c, Tail(a), Tail(b))
RECURSIVE Flat(_, _)
Flat(c, p) == IF p = <<>> THEN <<>> ELSE <<47>> \o Chars(c, Head(p)) \o Flat(c, Tail(p))
\* Sorted by components or by text; the statement does not say which
ByPath(c, q) == \A i \in 1..(Len(q) - 1) : LessPath(c, q[i], q[i + 1]) \/ q[i] = q[i + 1]
ByText(c, q) == \A i \in 1..(Len(q) - 1) : LessSeq(Flat(c, q[i]), Flat(c, q[i + 1])) \/ q[i] = q[i + 1]

Start(c) == c
Viol(s, e) ==
    IF e.ev # "files" THEN {"C11.fail"}
    ELSE LET got == {e.files[i] : i \in 1..Len(e.files)}
             exp == Expected(s)
         IN (IF exp \ got # {} THEN {"C11.lost"} ELSE {})
            \cup (IF got \ exp # {} THEN {"C11.extra"} ELSE {})
            \cup (IF Cardinality(got) # Len(e.files) THEN {"C11.twice"} ELSE {})
            \cup (IF got = exp /\ ~ByPath(s, e.files) /\ ~ByText(s, e.files) THEN {"C11.order"} ELSE {})
Apply(s, e) == s
=============================================================================
