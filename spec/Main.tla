-------------------------------- MODULE Main --------------------------------
(* One run of the program from its command line to its exit code: C35 (pytest runner), C36 (native runner), C37 (what is shown);
   or one call of run_tests, the Python interface: C38.  C39: the processes that the cases run in.  C41: runs in which some cases
   end the process that they run in.

   cfg:  cli         the options as in Cli: n, max, dist, env, cpus
         runner      "pytest", "native" or "api"
         only        --collect-only
         root        the path of the directory it is started in (paths are sequences of names)
         given       paths given on the command line; testpaths: configured ones
         nodes       the paths that exist
         items       what is collected: [p |-> file, n |-> number of its text, scope |-> number of its class or module,
                     real |-> the file, links followed]
         tests       the paths of the files that match
         subs        the directories of subprojects; counted: is the number of workers that are asked for known
         cases       what there is to run: [i |-> item, runs |-> whether its body runs, ok |-> whether it is no failure,
                     dies |-> whether it ends its process]
         bad         paths of the files that cannot be parsed
         inits       paths of the files with a test class that has an __init__, once for each
   Events, in order: "shown" (the collection as printed), "ran" (the body of a case ran, with the environment it saw and its process), "end". *)
EXTENDS Naturals, Sequences, FiniteSets
C == INSTANCE Cli

IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Range(f) == {f[x] : x \in DOMAIN f}
Roots(c) == IF c.given # <<>> THEN Range(c.given) ELSE IF c.testpaths # <<>> THEN Range(c.testpaths) ELSE {c.root}
Within(c, p) == \E r \in Roots(c) : IsPre(r, p)

Invalid(c) == ~C!NOk(c.cli) \/ ~C!DistOk(c.cli)
Missing(c) == \E i \in 1..Len(c.given) : c.given[i] \notin Range(c.nodes)
Items(c) == {i \in 1..Len(c.items) : Within(c, c.items[i].p)}
Bad(c) == {p \in Range(c.bad) : Within(c, p)}
Warnings(c) == Cardinality({i \in 1..Len(c.inits) : Within(c, c.inits[i])}) + Cardinality({i \in Items(c) : c.items[i].warns})

\* How far the run gets
Stage(c) == IF Invalid(c) THEN "invalid" ELSE IF Missing(c) THEN "missing" ELSE IF Bad(c) # {} THEN "broken"
            ELSE IF Items(c) = {} THEN "nothing" ELSE IF c.only THEN "listed" ELSE "run"
ToRun(c) == IF Stage(c) = "run" THEN {k \in 1..Len(c.cases) : c.cases[k].i \in Items(c)} ELSE {}
Failing(c) == {k \in ToRun(c) : ~c.cases[k].ok}
Code(c, code) == CASE Stage(c) \in {"invalid", "broken"} -> code # 0
                   [] Stage(c) = "missing" -> code = 4
                   [] OTHER -> (code = 0) = (Failing(c) = {})

Dying(c) == \E k \in ToRun(c) : c.cases[k].dies
Prop(c) == CASE Dying(c) -> "C41" [] c.runner = "pytest" -> "C35" [] c.runner = "native" -> "C36" [] OTHER -> "C38"
Start(cfg) == [c |-> cfg, ran |-> [k \in 1..Len(cfg.cases) |-> 0], shown |-> FALSE, procs |-> {}, dead |-> {}]
If(clause, holds) == IF holds THEN {clause} ELSE {}
ViolShown(c, e) ==
    LET texts == {c.items[i].n : i \in Items(c)}
    IN IF Stage(c) \in {"invalid", "missing"} THEN {"C37.shown"}
       ELSE If("C37.ids", Range(e.ids) # texts) \cup If("C37.twice", Len(e.ids) # Cardinality(Range(e.ids)))
            \cup If("C37.count", e.count # Cardinality(texts))
            \cup If("C37.errors", Range(e.errors) # Bad(c) \/ Len(e.errors) # Cardinality(Bad(c)) \/ e.nerrors # Cardinality(Bad(c)))
            \cup If("C37.warnings", e.warnings # Warnings(c) \/ e.nwarnings # Warnings(c))

\* ------------------------------------------------------------------ processes
Mode(c) == IF c.cli.dist.given THEN c.cli.dist.text ELSE C!Load
Serial(c) == c.runner = "api" \/ (c.runner = "pytest" /\ Mode(c) = C!No) \/ C!Workers(c.cli) <= 1
Workers(c) == IF Serial(c) THEN 1 ELSE C!Workers(c.cli)
\* Only the pytest runner treats subprojects apart
Homes(c, p) == IF c.runner # "pytest" THEN {} ELSE {d \in Range(c.subs) : IsPre(d, p)}
Home(c, p) == IF Homes(c, p) = {} THEN c.root ELSE CHOOSE d \in Homes(c, p) : \A x \in Homes(c, p) : Len(x) <= Len(d)
\* What is handed out: tests, scopes or files
UnitOf(c, i) == IF c.runner = "native" \/ Mode(c) = C!LoadFile THEN c.items[i].p
                ELSE IF Mode(c) = C!LoadScope THEN <<c.items[i].scope>> ELSE <<c.items[i].n>>
Units(c, h) == {UnitOf(c, i) : i \in {i \in Items(c) : Home(c, c.items[i].real) = h}}
\* Every unit runs something
Busy(c, h) ==
    LET mine == {k \in ToRun(c) : c.cases[k].runs /\ Home(c, c.items[c.cases[k].i].real) = h}
    IN /\ {UnitOf(c, c.cases[k].i) : k \in mine} = Units(c, h)
       /\ c.runner = "native" => {p \in Range(c.tests) : Within(c, p)} \subseteq {c.items[c.cases[k].i].p : k \in mine}
Lesser(a, b) == IF a < b THEN a ELSE b
\* A process that ends early may leave out what else was its share
Share(c, h) == LET n == Cardinality(IF c.runner = "native" THEN {p \in Range(c.tests) : Within(c, p)} ELSE Units(c, h))
               IN (n + Workers(c) - 1) \div Workers(c)
ViolDead(s, c) ==
    LET lost == {k \in ToRun(c) : c.cases[k].runs /\ s.ran[k] = 0}
        At(k) == Home(c, c.items[c.cases[k].i].real)
        unit(k) == UnitOf(c, c.cases[k].i)
        dead(h) == {x \in s.procs : x.home = h /\ x.pid \in s.dead}
        pids(h) == {x.pid : x \in dead(h)}
    IN If("C41.lost", \E k \in lost : dead(At(k)) = {})
       \cup If("C41.part", \E k \in lost : ~Serial(c) /\ \E x \in s.procs : x.home = At(k) /\ x.unit = unit(k) /\ x.pid \notin s.dead)
       \cup If("C41.more", c.counted /\ \E h \in {At(k) : k \in lost} :
                    Cardinality({x.unit : x \in dead(h)} \cup {unit(k) : k \in {k \in lost : At(k) = h}}) > Cardinality(pids(h)) * Share(c, h))
ViolProcs(s, c) ==
    LET P == IF Dying(c) THEN "C41" ELSE "C39"
        used(h) == {x.pid : x \in {x \in s.procs : x.home = h}}
        homes == {x.home : x \in s.procs}
        split == ~Serial(c) /\ (c.runner = "native" \/ Mode(c) \in {C!LoadFile, C!LoadScope})
    IN If(P \o ".many", c.counted /\ \E h \in homes : Cardinality(used(h)) > Workers(c))
       \cup If(P \o ".few", c.counted /\ \E h \in homes : Busy(c, h) /\ Cardinality(used(h)) < Lesser(Workers(c), Cardinality(Units(c, h))))
       \cup If(P \o ".apart", split /\ \E x, y \in s.procs : x.unit = y.unit /\ x.pid # y.pid)
       \cup If(P \o ".mixed", \E x, y \in s.procs : x.pid = y.pid /\ x.home # y.home)
ViolEnd(s, c, e) ==
    ViolProcs(s, c) \cup
    If(Prop(c) \o ".code", ~Code(c, e.code))
    \cup (IF Dying(c) THEN ViolDead(s, c) ELSE {})
    \cup If(Prop(c) \o ".lost", ~Dying(c) /\ \E k \in ToRun(c) : c.cases[k].runs /\ s.ran[k] = 0)
    \cup If("C37.silent", ~s.shown /\ Stage(c) \notin {"invalid", "missing"})
    \cup If("C37.missing", Stage(c) = "missing" /\ e.named \notin {c.given[i] : i \in {i \in 1..Len(c.given) : c.given[i] \notin Range(c.nodes)}})
Viol(s, e) ==
    LET c == s.c IN
    CASE e.ev = "shown" -> ViolShown(c, e)
      [] e.ev = "ran" ->
           IF e.k = 0 THEN {Prop(c) \o ".strange"}
           ELSE If(Prop(c) \o ".unwanted", e.k \notin ToRun(c) \/ ~c.cases[e.k].runs) \cup If(Prop(c) \o ".twice", s.ran[e.k] > 0)
                \cup If("C41.after", e.pid \in s.dead)
                \cup If("C35.env", c.runner = "pytest" /\ \E i \in 1..Len(C!Pairs(c.cli)) :
                                LET k == C!Pairs(c.cli)[i].k
                                IN ~\E j \in 1..Len(e.env) : e.env[j].k = k /\ e.env[j].v = C!LastFor(C!Pairs(c.cli), k))
      [] e.ev = "end" -> ViolEnd(s, c, e)
      [] OTHER -> {Prop(c) \o ".fail", "C37.fail", "C39.fail"}
Apply(s, e) == CASE e.ev = "shown" -> [s EXCEPT !.shown = TRUE]
                 [] e.ev = "ran" /\ e.k # 0 ->
                      LET i == s.c.cases[e.k].i
                      IN [s EXCEPT !.ran[e.k] = @ + 1, !.procs = @ \cup {[home |-> Home(s.c, s.c.items[i].real), unit |-> UnitOf(s.c, i), pid |-> e.pid]},
                                  !.dead = @ \cup IF s.c.cases[e.k].dies THEN {e.pid} ELSE {}]
                 [] OTHER -> s
=============================================================================
