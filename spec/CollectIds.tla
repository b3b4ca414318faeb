---- MODULE CollectIds ----
(* The ids of the cases of tests with pytest.mark.parametrize, as collected without running Python.

   A test has a stack of decorators, in the order in which pytest applies them: those of the function from the bottom up,
   then those of its class.  A decorator is a record
     names    the argument names,
     entries  the cases: for each argument name a value,
     ids      <<>> or one id for each case,
     given    whether it has the argument ids, even if that is None,
     shared   whether other tests have the decorator too: that of a class, or of an inherited function: "no", "may" or "yes",
     static   whether rtest documents that it can tell all values.
   A test with rtest.mark.cases instead has native = TRUE.
   Values and ids are {k |-> "str", s |-> code points}, a string; {k |-> "txt", s |-> code points}, a value that is not a string
   but has a text that pytest uses; {k |-> "box"}, a value without text; {k |-> "none"}, for ids, which leaves it to pytest.

   The cases are given to pytest by their ids, so they have to be pytest's ids exactly: a wrong or missing id is a case that
   does not run, an id given twice a case that runs twice.  Where rtest cannot tell the ids it gives pytest the name of the
   test, which means all cases, and warns. *)
EXTENDS Naturals, Sequences, FiniteSets

Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Hexes(_, _)
Hexes(n, digits) == IF digits = 0 THEN <<>> ELSE Hexes(n \div 16, digits - 1) \o <<Hex(n % 16)>>

(* Python's unicode_escape *)
EscapeChar(c) ==
    CASE c = 92 -> <<92, 92>>
      [] c = 9 -> <<92, 116>>
      [] c = 10 -> <<92, 110>>
      [] c = 13 -> <<92, 114>>
      [] c \in 32..126 /\ c # 92 -> <<c>>
      [] c < 256 /\ c \notin (32..126 \cup {9, 10, 13}) -> <<92, 120>> \o Hexes(c, 2)
      [] c >= 256 /\ c < 65536 -> <<92, 117>> \o Hexes(c, 4)
      [] OTHER -> <<92, 85>> \o Hexes(c, 8)

RECURSIVE Escape(_)
Escape(s) == IF s = <<>> THEN <<>> ELSE EscapeChar(Head(s)) \o Escape(Tail(s))

RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>

RECURSIVE Join(_)
Join(parts) == IF Len(parts) = 0 THEN <<>> ELSE IF Len(parts) = 1 THEN Head(parts) ELSE Head(parts) \o <<45>> \o Join(Tail(parts))

Text(v, name, i) == CASE v.k = "str" -> Escape(v.s) [] v.k = "txt" -> v.s [] OTHER -> name \o Decimal(i - 1)

(* The id of the i-th case of a decorator, before equal ones are told apart *)
RawId(d, i) ==
    IF d.ids # <<>> /\ d.ids[i].k # "none" THEN Text(d.ids[i], <<>>, i)
    ELSE Join([j \in 1..Len(d.names) |-> Text(d.entries[i][j], d.names[j], i)])

RawIds(d) == [i \in 1..Len(d.entries) |-> RawId(d, i)]
Range(f) == {f[x] : x \in DOMAIN f}
Distinct(ids) == Cardinality(Range(ids)) = Len(ids)

(* pytest numbers equal ids, and leaves out numbers that make an id that exists *)
RECURSIVE Number(_, _, _, _)
Number(orig, ids, i, next) ==
    LET id == orig[i]
        Named(n) == id \o (IF id # <<>> /\ id[Len(id)] \in 48..57 THEN <<95>> ELSE <<>>) \o Decimal(n)
    IN IF i > Len(ids) THEN ids
       ELSE IF Cardinality({j \in 1..Len(orig) : orig[j] = id}) = 1 THEN Number(orig, ids, i + 1, next)
       ELSE LET n == CHOOSE n \in next[id]..(next[id] + Len(ids)) :
                        /\ Named(n) \notin Range(ids)
                        /\ \A m \in next[id]..(n - 1) : Named(m) \in Range(ids)
            IN Number(orig, [ids EXCEPT ![i] = Named(n)], i + 1, [next EXCEPT ![id] = n + 1])
DecoratorIds(d) ==
    LET raw == RawIds(d) IN IF Distinct(raw) THEN raw ELSE Number(raw, raw, 1, [id \in Range(raw) |-> 0])

(* The ids of all combinations, the first decorator slowest *)
RECURSIVE Combine(_)
Combine(lists) ==
    IF lists = <<>> THEN << <<>> >>
    ELSE LET rest == Combine(SubSeq(lists, 1, Len(lists) - 1))
             last == lists[Len(lists)]
         IN [k \in 1..(Len(rest) * Len(last)) |-> Append(rest[((k - 1) \div Len(last)) + 1], last[((k - 1) % Len(last)) + 1])]

Cases(test) ==
    LET all == Combine([d \in 1..Len(test.decs) |-> DecoratorIds(test.decs[d])]) IN [k \in 1..Len(all) |-> Join(all[k])]

(* pytest keeps the ids of a decorator with the argument ids for the next test, and escapes them again: no one can tell them *)
Unsteady(d) == d.given /\ \E id \in Range(RawIds(d)) : Escape(id) # id

(* Whether rtest has to tell the ids *)
Certain(test) ==
    /\ \A d \in 1..Len(test.decs) : /\ test.decs[d].static /\ Distinct(RawIds(test.decs[d]))
                                    /\ ~(Unsteady(test.decs[d]) /\ test.decs[d].shared # "no")
    /\ Distinct(Cases(test))
    /\ test.native => Len(test.decs) = 1  \* it has other ids for constants, which may be equal for different cases

Count(id, ids) == Cardinality({j \in 1..Len(ids) : ids[j] = id})

-----------------------------------------------------------------------------
(* Judging what was collected for one test: e.ids, the ids shown with the test, e.base, how often it is shown without, and
   e.warned, the number of warnings about it.  e.known = FALSE: something was collected that is no test of the module. *)
Start(cfg) == cfg

Viol(s, e) ==
    IF ~e.known THEN {"C34.strange"}
    ELSE LET test == s.tests[e.t]
             want == Cases(test)
             Bad(clause, holds) == IF holds THEN {clause} ELSE {}
         IN IF test.decs = <<>> THEN Bad("C34.plain", e.ids # <<>> \/ e.base # 1 \/ e.warned # 0)
            ELSE IF e.ids = <<>> THEN
                Bad("C34.lost", e.base = 0) \cup Bad("C34.twice", e.base > 1) \cup Bad("C34.warning", e.warned # 1)
                \cup Bad("C34.unexpanded", Certain(test))
            ELSE IF test.native THEN  \* the runner of rtest itself: the ids are its own, but there is one for each case
                Bad("C34.wrong", Len(e.ids) # Len(want)) \cup Bad("C34.twice", ~Distinct(e.ids))
                \cup Bad("C34.both", e.base # 0) \cup Bad("C34.warning", e.warned # 0)
            ELSE Bad("C34.wrong", \/ ~(Range(e.ids) \subseteq Range(want))
                                  \/ \E d \in 1..Len(test.decs) : Unsteady(test.decs[d]) /\ test.decs[d].shared = "yes")
                \cup Bad("C34.missing", ~(Range(want) \subseteq Range(e.ids)))
                \cup Bad("C34.twice", ~Distinct(e.ids) \/ ~Distinct(want)) \cup Bad("C34.both", e.base # 0)
                \cup Bad("C34.order", Range(e.ids) = Range(want) /\ e.ids # want)
                \cup Bad("C34.warning", e.warned # 0)
Apply(s, e) == s
=============================================================================
