------------------------------ MODULE NativeRun ------------------------------
(* A native run: test files are shared out over worker processes, each delivers a results file, the run counts.

   cfg: root (path), files: sequence of tokens, n: worker count, classes / functions: pattern tokens, prog: can the
   Python interpreter be started, big: files too long for any process to be started with, lost: files whose tests end
   their process before it can deliver every result.

   Events: start - module: run as the rtest worker module; root, cwd; out: token of the results file; classes,
   functions, files: the tokens given; other: an unknown argument.
   end - exit, signal, readable: is its results file complete and well-formed; p f e s u: how many of its results are
   passed, failed, error, skipped, anything else (for an unreadable file: how many it might be taken to hold);
   us: their time in microseconds;
   fids, eids: the ids of the failed and of the errored ones.
   stuck, return (ret), summary, done (tmp: entries left in the temporary directory). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Start(c) == [c |-> c, given |-> [p \in {} |-> <<>>], outs |-> {}, ended |-> [p \in {} |-> [exit |-> 0]], ret |-> -1]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Started(s) == DOMAIN s.given
Range(q) == {q[i] : i \in 1..Len(q)}
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Times(s, x) == Sum([p \in Started(s) |-> Count(s.given[p], x)], Started(s))
Startable(c) == c.prog /\ c.big = <<>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Wanted(c) == Min(Max(c.n, 1), Len(c.files))

ViolStart(s, e) ==
    LET c == s.c
    IN (IF e.files = <<>> THEN {"C12.nofiles"} ELSE {})
       \cup (IF \E x \in Range(e.files) : Times(s, x) + Count(e.files, x) > Count(c.files, x) THEN {"C12.foreign"} ELSE {})
       \cup (IF ~e.module \/ e.other THEN {"C12.module"} ELSE {})
       \cup (IF e.root # c.root \/ e.cwd # c.root THEN {"C12.root"} ELSE {})
       \cup (IF e.classes # c.classes \/ e.functions # c.functions THEN {"C12.patterns"} ELSE {})
       \cup (IF e.out = 0 \/ e.out \in s.outs THEN {"C12.results_file"} ELSE {})

\* One worker delivered everything and nothing in it is bad
Fine(r) == r.exit = 0 /\ r.signal = 0 /\ r.readable /\ r.f = 0 /\ r.e = 0 /\ r.u = 0
Good(s) == /\ \A p \in Started(s) : p \in DOMAIN s.ended /\ Fine(s.ended[p])
           /\ Len(s.c.files) > 0 => Startable(s.c)
           /\ s.c.lost = <<>>

ViolReturn(s, e) ==
    (IF Startable(s.c) /\ \E i \in 1..Len(s.c.files) : Times(s, s.c.files[i]) # Count(s.c.files, s.c.files[i]) THEN {"C12.lost"} ELSE {})
    \cup (IF Startable(s.c) /\ Cardinality(Started(s)) # Wanted(s.c) THEN {"C12.workers"} ELSE {})
    \cup (IF Startable(s.c) /\ \E p, q \in Started(s) : Len(s.given[p]) > Len(s.given[q]) + 1 THEN {"C12.uneven"} ELSE {})
    \cup (IF Started(s) \ DOMAIN s.ended # {} THEN {"C13.early"} ELSE {})
    \cup (IF e.ret = 0 /\ ~Good(s) THEN {"C13.masked"} ELSE {})
    \cup (IF e.ret # 0 /\ Good(s) THEN {"C13.invented"} ELSE {})
    \cup (IF e.ret \notin {0, 1} THEN {"C13.status"} ELSE {})

ReadableEnds(s) == {p \in DOMAIN s.ended : s.ended[p].readable}
Low(s, k) == Sum([p \in DOMAIN s.ended |-> s.ended[p][k]], ReadableEnds(s))
High(s, k) == Sum([p \in DOMAIN s.ended |-> s.ended[p][k]], DOMAIN s.ended)
Ids(s, k, S) == UNION {Range(s.ended[p][k]) : p \in S}
ListOk(s, list, k) ==
    /\ \A i \in 1..Len(list) : list[i].times = 1 /\ list[i].detail
    /\ \A x \in Ids(s, k, ReadableEnds(s)) : \E i \in 1..Len(list) : list[i].id = x
ViolSummary(s, e) ==
    IF s.c.files = <<>> THEN {} ELSE
    (IF ~e.present THEN {"C14.missing"} ELSE
    (IF (e.status = "PASSED") # (s.ret = 0) \/ e.status \notin {"PASSED", "FAILED"} THEN {"C14.status"} ELSE {})
    \cup (IF \E k \in {"p", "f", "s"} : e[k] < Low(s, k) \/ e[k] > High(s, k) THEN {"C14.counts"} ELSE {})
    \cup (IF e.e < Low(s, "e") + Low(s, "u") \/ e.e > High(s, "e") + High(s, "u") THEN {"C14.counts"} ELSE {})
    \cup (IF e.ms * 1000 + 6000 < Low(s, "us") \/ e.ms * 1000 > High(s, "us") + 6000 THEN {"C14.time"} ELSE {})
    \cup (IF e.zero THEN {"C14.zero"} ELSE {})
    \cup (IF ~ListOk(s, e.failures, "fids") THEN {"C14.failures"} ELSE {})
    \cup (IF ~ListOk(s, e.errors, "eids") THEN {"C14.errors"} ELSE {}))

Viol(s, e) ==
    CASE e.ev = "start" -> ViolStart(s, e)
      [] e.ev = "end" -> {}
      [] e.ev = "stuck" -> {"C09.stuck"}
      [] e.ev = "return" -> ViolReturn(s, e)
      [] e.ev = "summary" -> ViolSummary(s, e)
      [] e.ev = "done" -> IF e.tmp > 0 THEN {"C18.leftover"} ELSE {}
      [] e.ev = "hang" -> {"C09.hang", "C12.hang", "C13.hang", "C14.hang", "C18.hang"}
      [] OTHER -> {"C09.fail", "C12.fail", "C13.fail", "C14.fail", "C18.fail"}
Apply(s, e) ==
    CASE e.ev = "start" -> [s EXCEPT !.given = Put(@, e.pid, e.files), !.outs = @ \cup {e.out}]
      [] e.ev = "end" -> [s EXCEPT !.ended = Put(@, e.pid, e)]
      [] e.ev = "return" -> [s EXCEPT !.ret = e.ret]
      [] OTHER -> s
=============================================================================
