-------------------------------- MODULE Glob --------------------------------
(* Shell-style matching of a whole name; names and patterns are sequences of code points. *)
EXTENDS Naturals, Sequences, FiniteSets

STAR == 42
QM == 63
OPEN == 91
CLOSE == 93
BANG == 33
DASH == 45

\* Position of the closing bracket of the class that opens at i (a bracket right after the opening is a member), or 0
RECURSIVE FindClose(_, _)
FindClose(p, j) == IF j > Len(p) THEN 0 ELSE IF p[j] = CLOSE THEN j ELSE FindClose(p, j + 1)
ClassEnd(p, i) == LET first == IF i + 1 <= Len(p) /\ p[i + 1] = BANG THEN i + 2 ELSE i + 1
                  IN FindClose(p, first + 1)
\* Is c a member of the class whose members are p[a..b]?
RECURSIVE InClass(_, _, _, _)
InClass(p, a, b, c) == IF a > b THEN FALSE
                       ELSE IF a + 2 <= b /\ p[a + 1] = DASH
                            THEN (p[a] <= c /\ c <= p[a + 2]) \/ InClass(p, a + 3, b, c)
                            ELSE p[a] = c \/ InClass(p, a + 1, b, c)

RECURSIVE M(_, _, _, _)
M(p, i, n, j) ==
    IF i > Len(p) THEN j > Len(n)
    ELSE IF p[i] = STAR THEN M(p, i + 1, n, j) \/ (j <= Len(n) /\ M(p, i, n, j + 1))
    ELSE IF j > Len(n) THEN FALSE
    ELSE IF p[i] = QM THEN M(p, i + 1, n, j + 1)
    ELSE IF p[i] = OPEN /\ ClassEnd(p, i) # 0
         THEN LET z == ClassEnd(p, i)
                  neg == p[i + 1] = BANG
                  inside == InClass(p, IF neg THEN i + 2 ELSE i + 1, z - 1, n[j])
              IN (inside # neg) /\ M(p, z + 1, n, j + 1)
         ELSE p[i] = n[j] /\ M(p, i + 1, n, j + 1)
Glob(p, n) == M(p, 1, n, 1)
AnyGlob(ps, n) == \E i \in 1..Len(ps) : Glob(ps[i], n)
=============================================================================
