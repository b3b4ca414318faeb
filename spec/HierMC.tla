-------------------------------- MODULE HierMC --------------------------------
(* All hierarchies of three classes with one attribute that every class may or may not define in several ways.  The
   order of Lookup.tla has the properties Python promises: it keeps the order of the bases and of the bases' own orders,
   a class comes before its bases, every ancestor occurs once.  Every consistent hierarchy is printed as a scenario. *)
EXTENDS Lookup, TLC, Json
CONSTANTS Kinds
Choice == Kinds \cup {"absent"}
VARIABLES classes, done
BasesOf(k) == IF k = 1 THEN {<<>>} ELSE IF k = 2 THEN {<<>>, <<1>>} ELSE {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
Cls(b, kind, k) == [bases |-> b, attrs |-> IF kind = "absent" THEN <<>> ELSE <<[n |-> 1, kind |-> kind, ref |-> k]>>]
Init == /\ done = FALSE
        /\ \E b2 \in BasesOf(2), b3 \in BasesOf(3), k1, k2, k3 \in Choice :
              classes = <<Cls(<<>>, k1, 1), Cls(b2, k2, 2), Cls(b3, k3, 3)>>
Next == ~done /\ done' = TRUE /\ UNCHANGED classes
Spec == Init /\ [][Next]_<<classes, done>>

Pos(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
Ok(k) == Consistent(classes, k)
RECURSIVE Anc(_)
Anc(k) == {k} \cup UNION {Anc(classes[k].bases[i]) : i \in 1..Len(classes[k].bases)}
Once == \A k \in 1..3 : Ok(k) => LET l == Lin(classes, k) IN Len(l) = Cardinality(Anc(k)) /\ {l[i] : i \in 1..Len(l)} = Anc(k)
Before == \A k \in 1..3 : Ok(k) => \A c \in Anc(k) : \A b \in Anc(c) \ {c} : Pos(Lin(classes, k), c) < Pos(Lin(classes, k), b)
BaseOrder == \A k \in 1..3 : Ok(k) => \A c \in Anc(k) : LET bs == classes[c].bases IN
                 \A i, j \in 1..Len(bs) : i < j => Pos(Lin(classes, k), bs[i]) < Pos(Lin(classes, k), bs[j])
Monotone == \A k \in 1..3 : Ok(k) => \A c \in Anc(k) : LET l == Lin(classes, c) IN
                 \A i, j \in 1..Len(l) : i < j => Pos(Lin(classes, k), l[i]) < Pos(Lin(classes, k), l[j])
Inherit == \A k \in 1..3 : Ok(k) => (Attr(classes, k, 1) = NoAttr <=> \A c \in Anc(k) : classes[c].attrs = <<>>)
OwnFirst == \A k \in 1..3 : (Ok(k) /\ classes[k].attrs # <<>>) => Attr(classes, k, 1) = classes[k].attrs[1]
Scenarios == (done /\ Ok(2) /\ Ok(3)) => PrintT(<<"SCN", ToJson(classes)>>)
=============================================================================
