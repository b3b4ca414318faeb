------------------------------- MODULE Raises -------------------------------
(* rtest.raises.  cfg.anc[t]: the exception type t and its bases, as a sequence; cfg.assertion: the type AssertionError;
   cfg.pats: patterns (Regex).  Exceptions are objects: [id, t, text, cause (id or 0)]; id 0 stands for none.
   Events: make(ctx, valid, exp, pat, raised), begin(ctx, value), end(ctx, exc), done(ctx, exc, value).
   make comes first; begin tells that the body runs; end how the body ended, done how the block ended and its .value. *)
EXTENDS Regex
NoExc == 0
IsA(c, t, u) == \E i \in 1..Len(c.anc[t]) : c.anc[t][i] = u
Expected(c, x, e) == e.id # NoExc /\ \E i \in 1..Len(x.exp) : IsA(c, e.t, x.exp[i])
Matches(c, x, e) == x.pat = 0 \/ Search(c.pats[x.pat], e.text)
\* How a block over x ends when its body ended with e
Verdict(c, x, e) ==
    IF e.id = NoExc THEN "assert"
    ELSE IF ~Expected(c, x, e) THEN "pass"
    ELSE IF Matches(c, x, e) THEN "accept" ELSE "mismatch"

Start(c) == [c |-> c, made |-> <<>>, ended |-> <<>>]
Get(s, ctx) == s.made[CHOOSE i \in 1..Len(s.made) : s.made[i].ctx = ctx]

ViolMake(s, e) == IF e.valid /\ e.raised THEN {"C29.rejected"} ELSE {}
ViolBegin(s, e) ==
    (IF ~Get(s, e.ctx).valid THEN {"C29.accepted_arguments"} ELSE {}) \cup (IF e.value # NoExc THEN {"C29.early_value"} ELSE {})
ViolDone(s, e) ==
    LET x == Get(s, e.ctx) IN
    IF ~\E i \in 1..Len(s.ended) : s.ended[i].ctx = e.ctx
    THEN IF x.valid THEN {"C29.no_body"} ELSE IF e.exc.id = NoExc THEN {"C29.accepted_arguments"} ELSE {}
    ELSE LET b == s.ended[CHOOSE i \in 1..Len(s.ended) : s.ended[i].ctx = e.ctx].exc
             v == Verdict(s.c, x, b)
         IN CASE v = "accept" -> (IF e.exc.id # NoExc THEN {"C29.not_accepted"} ELSE {}) \cup (IF e.value # b.id THEN {"C29.value"} ELSE {})
              [] v = "pass" -> (IF e.exc.id # b.id THEN {"C29.not_propagated"} ELSE IF e.exc.cause # b.cause THEN {"C29.changed"} ELSE {})
                               \cup (IF e.value # NoExc THEN {"C29.value"} ELSE {})
              [] v = "assert" -> (IF e.exc.id = NoExc \/ ~IsA(s.c, e.exc.t, s.c.assertion) THEN {"C29.did_not_raise"} ELSE {})
                                 \cup (IF e.value # NoExc THEN {"C29.value"} ELSE {})
              [] OTHER -> (IF e.exc.id = NoExc THEN {"C29.accepted_mismatch"}
                           ELSE IF e.exc.id = b.id \/ ~IsA(s.c, e.exc.t, s.c.assertion) THEN {"C29.mismatch_error"}
                           ELSE IF e.exc.cause # b.id THEN {"C29.chain"} ELSE {})
                          \cup (IF e.value # NoExc THEN {"C29.value"} ELSE {})
Viol(s, e) ==
    CASE e.ev = "make" -> ViolMake(s, e)
      [] e.ev = "begin" -> ViolBegin(s, e)
      [] e.ev = "end" -> {}
      [] e.ev = "done" -> ViolDone(s, e)
      [] OTHER -> {"C29.fail"}
Apply(s, e) ==
    CASE e.ev = "make" -> [s EXCEPT !.made = Append(@, [ctx |-> e.ctx, valid |-> e.valid, exp |-> e.exp, pat |-> e.pat])]
      [] e.ev = "end" -> [s EXCEPT !.ended = Append(@, [ctx |-> e.ctx, exc |-> e.exc])]
      [] OTHER -> s
=============================================================================
