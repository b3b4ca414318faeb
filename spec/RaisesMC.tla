------------------------------- MODULE RaisesMC -------------------------------
(* All nests of up to Depth blocks around one raise or none.  The body's exception unwinds one block at a time by
   Verdict; the invariants say what a user sees, without Verdict.  Types: 1 Exception, 2 and 3 below it, 4 below both 2 and 3,
   5 AssertionError, 6 a BaseException that is no Exception. *)
EXTENDS Raises, TLC, Json
CONSTANT Depth
Anc == << <<1>>, <<2, 1>>, <<3, 1>>, <<4, 2, 3, 1>>, <<5, 1>>, <<6>> >>
Plain == [icase |-> FALSE, dotall |-> FALSE, multi |-> FALSE]
\* Pattern 1 finds an "x"; pattern 2 never matches
Pats == << [flags |-> Plain, re |-> [k |-> "lit", c |-> 120]], [flags |-> Plain, re |-> [k |-> "set", cs |-> <<>>, neg |-> FALSE]] >>
C == [anc |-> Anc, assertion |-> 5, pats |-> Pats]
Exps == {<<1>>, <<2>>, <<4>>, <<5>>, <<6>>, <<3, 6>>, <<4, 2>>}
Blocks == [exp : Exps, pat : 0..2]
Raw == [id : {1}, t : 1..6, text : {<<120>>}, cause : {0}] \cup {[id |-> 0, t |-> 0, text |-> <<>>, cause |-> 0]}
VARIABLES nest, raw, cur, k, log
\* nest: blocks from the outermost; k: blocks still open; log: per closed block, innermost first, [in, out, value]
Init == /\ nest \in UNION {[1..n -> Blocks] : n \in 1..Depth}
        /\ raw \in Raw /\ cur = raw /\ k = Len(nest) /\ log = <<>>
Own(n, cause) == [id |-> 10 + n, t |-> 5, text |-> <<>>, cause |-> cause]
None0 == [id |-> 0, t |-> 0, text |-> <<>>, cause |-> 0]
Close == /\ k > 0
         /\ LET v == Verdict(C, nest[k], cur)
                out == CASE v = "accept" -> None0 [] v = "pass" -> cur [] v = "assert" -> Own(k, 0) [] OTHER -> Own(k, cur.id)
            IN /\ cur' = out
               /\ log' = Append(log, [in |-> cur, out |-> out, value |-> IF v = "accept" THEN cur.id ELSE 0])
         /\ k' = k - 1
         /\ UNCHANGED <<nest, raw>>
Spec == Init /\ [][Close]_<<nest, raw, cur, k, log>>
Block(i) == nest[Len(nest) + 1 - i]
\* A block ends normally only if the body raised something expected that matches; .value is that and nothing else
Normal == \A i \in 1..Len(log) : log[i].out.id = 0 <=> (log[i].in.id # 0 /\ (\E j \in 1..Len(Block(i).exp) : IsA(C, log[i].in.t, Block(i).exp[j])) /\ Block(i).pat # 2
                                                         /\ (Block(i).pat = 1 => log[i].in.text = <<120>>))
Value == \A i \in 1..Len(log) : log[i].value = (IF log[i].out.id = 0 THEN log[i].in.id ELSE 0)
\* Nothing is swallowed: what leaves is the exception itself, or an AssertionError that tells of it or of nothing
Told == \A i \in 1..Len(log) : log[i].out.id # 0 => log[i].out = log[i].in \/ (log[i].out.t = 5 /\ log[i].out.cause = log[i].in.id)
\* Base exceptions are never hidden unless named
Kept == \A i \in 1..Len(log) : (log[i].in.t = 6 /\ \A j \in 1..Len(Block(i).exp) : Block(i).exp[j] # 6) => log[i].out = log[i].in
Scenarios == (k = Len(nest)) => PrintT(<<"SCN", ToJson([nest |-> nest, t |-> raw.t])>>)
=============================================================================
