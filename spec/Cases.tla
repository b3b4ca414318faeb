------------------------------- MODULE Cases -------------------------------
(* Case decorators.  A function carries a list of decorators of each family ("rtest", "pytest"), nearest first; decorating
   or wrapping changes nothing else.  cfg.decs: [names: sequence of names, entries, has (explicit ids?), ids: sequence of
   texts]; an entry is [ok: has it the right shape, toks: value of each name, txt: the value as a tree for its text].
   Text trees: [k |-> "text", t |-> code points] or [k |-> "seq", xs |-> trees]. *)
EXTENDS Integers, Sequences, FiniteSets

Dash == 45
RECURSIVE Text(_)
RECURSIVE JoinFrom(_, _)
JoinFrom(q, i) == IF i > Len(q) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE <<Dash>>) \o q[i] \o JoinFrom(q, i + 1)
Join(q) == JoinFrom(q, 1)
Text(v) == IF v.k = "text" THEN v.t ELSE Join([i \in 1..Len(v.xs) |-> Text(v.xs[i])])

\* What entry i of a decorator would like to be called
Wish(d, i) == IF d.has /\ i <= Len(d.ids) THEN d.ids[i] ELSE Text(d.entries[i].txt)
\* Are these ids of the entries?
GoodIds(wishes, ids) ==
    /\ Len(ids) = Len(wishes)
    /\ \A i, j \in 1..Len(ids) : i # j => ids[i] # ids[j]
    /\ \A i \in 1..Len(ids) : (ids[i] = wishes[i]) <=> \A j \in 1..(i - 1) : ids[j] # wishes[i]
Wishes(d) == [i \in 1..Len(d.entries) |-> Wish(d, i)]
Malformed(d) == \E i \in 1..Len(d.entries) : ~d.entries[i].ok

\* All combinations of the entries of the decorators ds, in order: the first decorator varies slowest
RECURSIVE Combos(_)
Combos(ds) ==
    IF ds = <<>> THEN << <<>> >>
    ELSE LET rest == Combos(Tail(ds))
             n == Len(rest)
         IN [k \in 1..(Len(Head(ds).entries) * n) |-> <<((k - 1) \div n) + 1>> \o rest[((k - 1) % n) + 1]]
ArgsOf(ds, combo) == UNION {{<<ds[i].names[j], ds[i].entries[combo[i]].toks[j]>> : j \in 1..Len(ds[i].names)} : i \in 1..Len(ds)}

Decs(c, f) == LET q == IF f.rtest # <<>> THEN f.rtest ELSE f.pytest IN [i \in 1..Len(q) |-> c.decs[q[i]]]
Family(f) == IF f.rtest = <<>> /\ f.pytest # <<>> THEN "pytest" ELSE "rtest"
Bad(c, f) == \E i \in 1..Len(Decs(c, f)) : Malformed(Decs(c, f)[i])

None == [rtest |-> <<>>, pytest |-> <<>>, skip |-> {}]
Start(c) == [c |-> c, fns |-> [f \in 1..c.fns |-> None], given |-> [f \in 1..c.fns |-> <<>>]]

Same(a, b) == /\ Len(a) = Len(b)
              /\ \A x \in {a[i] : i \in 1..Len(a)} \cup {b[i] : i \in 1..Len(b)} :
                    Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
Set(q) == {q[i] : i \in 1..Len(q)}

\* e.cases: sequence of [id, args: pairs <<name, value>>]; e.given: for each decorator, the ids it gives to its entries
\* when it is the only one
IdProblem(ds, e) ==
    LET given == e.given
        combos == Combos(ds)
    IN (IF Len(given) # Len(ds) \/ \E i \in 1..Len(ds) : ~GoodIds(Wishes(ds[i]), given[i]) THEN {"ids"} ELSE {})
       \cup (IF Len(given) = Len(ds) /\ (\A i \in 1..Len(ds) : Len(given[i]) = Len(ds[i].entries)) /\ Len(e.cases) = Len(combos)
                /\ \E k \in 1..Len(combos) : e.cases[k].id # Join([i \in 1..Len(ds) |-> given[i][combos[k][i]]])
             THEN {"joined"} ELSE {})
CaseProblem(ds, e) ==
    LET combos == Combos(ds) IN
    IF Len(e.cases) # Len(combos) THEN {"count"}
    ELSE IF \E k \in 1..Len(combos) : Set(e.cases[k].args) # ArgsOf(ds, combos[k])
         THEN IF Same([k \in 1..Len(combos) |-> Set(e.cases[k].args)], [k \in 1..Len(combos) |-> ArgsOf(ds, combos[k])])
              THEN {"order"} ELSE {"arguments"}
         ELSE {}
Named(f, p25, p26) ==
    IF Family(f) = "pytest" THEN {"C27." \o x : x \in p25 \cup p26} ELSE {"C25." \o x : x \in p25} \cup {"C26." \o x : x \in p26}

ViolExpand(s, e) ==
    LET f == s.fns[e.f]
        ds == Decs(s.c, f)
    IN IF Bad(s.c, f) THEN (IF e.ok THEN Named(f, {"accepted"}, {}) ELSE {})
       ELSE IF ~e.ok THEN Named(f, {"rejected"}, {"rejected"})
       ELSE Named(f, CaseProblem(ds, e), IdProblem(ds, e))
            \cup (IF s.given[e.f] # <<>> /\ s.given[e.f] # e.cases THEN Named(f, {"changed"}, {"unstable"}) ELSE {})

\* The records of function g: every case once, skipped or run with its arguments
ViolFun(s, e, g) ==
    LET f == s.fns[g]
        ds == Decs(s.c, f)
        rs == SelectSeq(e.records, LAMBDA r : r.f = g)
        combos == Combos(ds)
        got(k) == s.given[g][k]
        want == [k \in 1..Len(combos) |-> ArgsOf(ds, combos[k])]
        known == Len(s.given[g]) = Len(combos)
    IN IF f.skip # {}
       THEN (IF \E i \in 1..Len(rs) : rs[i].outcome # "skipped" \/ rs[i].r \notin f.skip THEN {"C27.skip"} ELSE {})
            \cup (IF Len(rs) # Len(combos) THEN Named(f, {"count"}, {}) ELSE {})
            \cup (IF known /\ ~Same([i \in 1..Len(rs) |-> rs[i].id], [k \in 1..Len(combos) |-> got(k).id]) THEN Named(f, {}, {"recorded"}) ELSE {})
       ELSE (IF \E i \in 1..Len(rs) : rs[i].outcome = "skipped" THEN {"C27.skip"} ELSE {})
            \cup (IF ~Same([i \in 1..Len(rs) |-> Set(rs[i].args)], want) \/ \E i \in 1..Len(rs) : rs[i].outcome # "passed"
                  THEN Named(f, {"executed"}, {}) ELSE {})
            \cup (IF known /\ ~Same([i \in 1..Len(rs) |-> <<rs[i].id, Set(rs[i].args)>>], [k \in 1..Len(combos) |-> <<got(k).id, want[k]>>])
                  THEN Named(f, {}, {"recorded"}) ELSE {})
ViolRun(s, e) ==
    LET bad == {g \in 1..s.c.fns : Bad(s.c, s.fns[g])} IN
    IF bad # {}
    THEN IF Len(e.records) = 1 /\ e.records[1].f = 0 /\ e.records[1].outcome = "error" THEN {}
         ELSE UNION {Named(s.fns[g], {"accepted"}, {}) : g \in bad}
    ELSE (IF \E i \in 1..Len(e.records) : e.records[i].f = 0 THEN {"C25.rejected", "C27.rejected"} ELSE {})
         \cup UNION {ViolFun(s, e, g) : g \in 1..s.c.fns}

Viol(s, e) ==
    CASE e.ev = "expand" -> ViolExpand(s, e)
      [] e.ev = "run" -> ViolRun(s, e)
      [] e.ev \in {"decorate", "wrap", "skip"} -> {}
      [] OTHER -> {p \o ".fail" : p \in {"C25", "C26", "C27"}}
Apply(s, e) ==
    CASE e.ev = "decorate" -> [s EXCEPT !.fns[e.f][e.fam] = Append(@, e.d), !.given[e.f] = <<>>]
      [] e.ev = "wrap" -> [s EXCEPT !.fns[e.f] = s.fns[e.from], !.given[e.f] = <<>>]
      [] e.ev = "skip" -> [s EXCEPT !.fns[e.f].skip = @ \cup {e.r}]
      [] e.ev = "expand" -> [s EXCEPT !.given[e.f] = IF e.ok THEN e.cases ELSE <<>>]
      [] OTHER -> s
=============================================================================
