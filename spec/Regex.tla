------------------------------- MODULE Regex -------------------------------
(* Search by regular expression.  Text and literals are code points; icase compares ASCII letters without case, dotall
   lets a dot match a newline, multi lets ^ and $ match at lines.
   Trees: [k |-> "lit", c], "dot", [k |-> "set", cs, neg], [k |-> "seq" | "alt", xs], [k |-> "rep", x, lo, hi (-1: no limit)], "bol", "eol". *)
EXTENDS Integers, Sequences, FiniteSets
Newline == 10
Fold(c) == IF c \in 65..90 THEN c + 32 ELSE c
Eq(fl, a, b) == a = b \/ (fl.icase /\ Fold(a) = Fold(b))
RECURSIVE Ends(_, _, _, _)
RECURSIVE SeqEnds(_, _, _, _, _)
RECURSIVE RepEnds(_, _, _, _, _)
\* Positions (0..Len(t)) where a match of r that begins at i can end
SeqEnds(fl, xs, n, t, I) == IF n > Len(xs) THEN I ELSE SeqEnds(fl, xs, n + 1, t, UNION {Ends(fl, xs[n], t, i) : i \in I})
\* n: repetitions still allowed, no more than there are positions
RepEnds(fl, r, n, t, I) == IF n = 0 THEN I ELSE LET J == I \cup UNION {Ends(fl, r.x, t, i) : i \in I} IN IF J = I THEN I ELSE RepEnds(fl, r, n - 1, t, J)
Ends(fl, r, t, i) ==
    CASE r.k = "lit" -> IF i < Len(t) /\ Eq(fl, t[i + 1], r.c) THEN {i + 1} ELSE {}
      [] r.k = "dot" -> IF i < Len(t) /\ (fl.dotall \/ t[i + 1] # Newline) THEN {i + 1} ELSE {}
      [] r.k = "set" -> IF i < Len(t) /\ ((\E j \in 1..Len(r.cs) : Eq(fl, t[i + 1], r.cs[j])) # r.neg) THEN {i + 1} ELSE {}
      [] r.k = "seq" -> SeqEnds(fl, r.xs, 1, t, {i})
      [] r.k = "alt" -> UNION {Ends(fl, r.xs[j], t, i) : j \in 1..Len(r.xs)}
      [] r.k = "rep" -> LET must == SeqEnds(fl, [j \in 1..r.lo |-> r.x], 1, t, {i})
                        IN RepEnds(fl, r, IF r.hi < 0 THEN Len(t) + 1 ELSE r.hi - r.lo, t, must)
      [] r.k = "bol" -> IF i = 0 \/ (fl.multi /\ t[i] = Newline) THEN {i} ELSE {}
      [] r.k = "eol" -> IF i = Len(t) \/ (i = Len(t) - 1 /\ t[i + 1] = Newline) \/ (fl.multi /\ t[i + 1] = Newline) THEN {i} ELSE {}
      [] OTHER -> {}
Search(p, t) == \E i \in 0..Len(t) : Ends(p.flags, p.re, t, i) # {}
=============================================================================
