------------------------------- MODULE SkipMC -------------------------------
(* Skip marks on a test method, on its class and on a base class, of either family and with or without a reason, where
   the method is the class's own or the base's.  Checked on the rules of Worker.tla: a test runs only if nothing marks it
   as skipped, a mark always counts, and the reason is one that some mark gives, that of the method before that of a class.
   Every combination is printed as a scenario. *)
EXTENDS Worker, TLC, Json
Marks(r) == {<<>>, <<[fam |-> "rtest", r |-> r]>>, <<[fam |-> "pytest", r |-> r]>>, <<[fam |-> "rtest", r |-> 0]>>, <<[fam |-> "pytest", r |-> 0]>>,
             <<[fam |-> "rtest", r |-> r], [fam |-> "pytest", r |-> r + 1]>>}
VARIABLES base, cls, meth, own
Init == base \in Marks(1) /\ cls \in Marks(3) /\ meth \in Marks(5) /\ own \in BOOLEAN
Next == UNCHANGED <<base, cls, meth, own>>
Fun == [n |-> 1, kind |-> "fun", ref |-> 1]
Cfg == [classes |-> <<[bases |-> <<>>, skips |-> base, dims |-> <<>>, attrs |-> IF own THEN <<>> ELSE <<Fun>>],
                      [bases |-> <<1>>, skips |-> cls, dims |-> <<>>, attrs |-> IF own THEN <<Fun>> ELSE <<>>]>>,
        funs |-> <<[kind |-> "plain", dims |-> <<>>, skips |-> meth]>>]
All3 == Range(base) \cup Range(cls) \cup Range(meth)
Got == Reasons(Cfg, 1, 2)
RunsUnlessMarked == (Got = {}) <=> (All3 = {})
ReasonIsGiven == Got \subseteq {m.r : m \in All3}
MethodFirst == (\E m \in Range(meth) : m.r # 0) /\ ~(\E m \in Range(meth) : m.r = 0) => Got \subseteq {m.r : m \in Range(meth)}
NearestClass == meth = <<>> /\ cls # <<>> /\ base # <<>> /\ (\A m \in Range(base) : \E x \in Range(cls) : x.fam = m.fam) => Got \subseteq {m.r : m \in Range(cls)}
Scenarios == PrintT(<<"SCN", ToJson([base |-> base, cls |-> cls, meth |-> meth, own |-> own])>>)
=============================================================================
