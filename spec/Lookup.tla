------------------------------- MODULE Lookup -------------------------------
(* Python classes: method resolution order (C3) and attribute lookup.
   A class is [bases |-> sequence of classes (all smaller numbers), attrs |-> sequence of [n, kind, ref]]. *)
EXTENDS Naturals, Sequences, FiniteSets

NoAttr == [n |-> 0, kind |-> "absent", ref |-> 0]
InTail(x, q) == \E i \in 2..Len(q) : q[i] = x
NonEmpty(qs) == SelectSeq(qs, LAMBDA q : q # <<>>)
Drop(x, qs) == [i \in 1..Len(qs) |-> IF qs[i] # <<>> /\ Head(qs[i]) = x THEN Tail(qs[i]) ELSE qs[i]]
\* <<FALSE>> stands for "no consistent order"
RECURSIVE Merge(_, _)
Merge(acc, qs0) ==
    LET qs == NonEmpty(qs0)
        good == {i \in 1..Len(qs) : \A j \in 1..Len(qs) : ~InTail(Head(qs[i]), qs[j])}
    IN IF qs = <<>> THEN <<TRUE, acc>>
       ELSE IF good = {} THEN <<FALSE, acc>>
       ELSE LET i == CHOOSE i \in good : \A j \in good : i <= j
                x == Head(qs[i])
            IN Merge(Append(acc, x), Drop(x, qs))
RECURSIVE Mro(_, _)
Mro(classes, k) ==
    LET bs == classes[k].bases
        ms == [i \in 1..Len(bs) |-> Mro(classes, bs[i])]
        m == Merge(<<k>>, [i \in 1..Len(bs) |-> ms[i][2]] \o <<bs>>)
    IN IF \E i \in 1..Len(bs) : ~ms[i][1] THEN <<FALSE, <<k>>>> ELSE m
Lin(classes, k) == Mro(classes, k)[2]
Consistent(classes, k) == Mro(classes, k)[1]

Own(classes, k, n) == {i \in 1..Len(classes[k].attrs) : classes[k].attrs[i].n = n}
\* Attribute n of class k: the last definition in the first class of the order that has one
Attr(classes, k, n) ==
    LET lin == Lin(classes, k)
        D == {i \in 1..Len(lin) : Own(classes, lin[i], n) # {}}
    IN IF D = {} THEN NoAttr
       ELSE LET c == lin[CHOOSE i \in D : \A j \in D : i <= j]
                O == Own(classes, c, n)
            IN classes[c].attrs[CHOOSE i \in O : \A j \in O : j <= i]
\* Does the class attribute give a function or a class method?
IsFunction(a) == a.kind \in {"fun", "static", "classm"}
AttrNames(classes, k) == UNION {{classes[c].attrs[i].n : i \in 1..Len(classes[c].attrs)} : c \in {Lin(classes, k)[j] : j \in 1..Len(Lin(classes, k))}}
=============================================================================
