------------------------------- MODULE Worker -------------------------------
(* The Python worker runs test programs.  cfg describes the program:
     names: code points of every name; cpats, fpats: class and function patterns (code points);
     sm, su, tm, td: the names setup_method, setUp, teardown_method, tearDown (0: not in use);
     files: [bad |-> does importing fail, ns |-> sequence of [n, kind "fun" | "class" | "other", ref,
       own |-> is it the file's own, not imported]];
     funs: [kind "plain" | "odd", dims |-> entries of each case decorator, nearest first, skips |-> sequence of [fam, r]];
     classes: see Lookup, with skips, dims (of its own case decorators) and init: does the class define a constructor (such test classes, and those they are a base
     of, are not collected).
   The log of the code it runs, in order: import, new (an instance is constructed), setup, body, teardown; each with what
   it raises (rk: "ok", "assert", "other"; rt: token of the exception type; seq: number of the event, also the text by
   which it is recognised in the output), where it wrote (so, se) and which streams it closed (co, ce).
   Then the results: results (strict: is every line strict JSON), record, exit. *)
EXTENDS Lookup, Glob, Integers

Range(q) == {q[i] : i \in 1..Len(q)}
Tuples(dims) == {t \in [1..Len(dims) -> 1..(IF dims = <<>> THEN 1 ELSE CHOOSE m \in Range(dims) \cup {1} : \A x \in Range(dims) : x <= m)] :
                    \A i \in 1..Len(dims) : t[i] <= dims[i]}

\* The cases of a function in a class (0: none): those of its own decorators, then those of the class and its bases in order; an
\* entry for a class also tells which
RECURSIVE ClassDims(_, _)
ClassDims(c, lin) == IF lin = <<>> THEN <<>> ELSE [i \in 1..Len(c.classes[lin[1]].dims) |-> [k |-> lin[1], n |-> c.classes[lin[1]].dims[i]]] \o ClassDims(c, Tail(lin))
CasesOf(c, fun, k) ==
    LET cd == IF k = 0 THEN <<>> ELSE ClassDims(c, Lin(c.classes, k))
    IN {t \o [i \in 1..Len(cd) |-> 100 * cd[i].k + u[i]] : t \in Tuples(c.funs[fun].dims), u \in Tuples([i \in 1..Len(cd) |-> cd[i].n])}

\* Reasons a class may be skipped for, nearest first within each family of markers
ClassMarks(c, k, fam) ==
    LET lin == Lin(c.classes, k)
        D == {i \in 1..Len(lin) : \E m \in Range(c.classes[lin[i]].skips) : m.fam = fam}
    IN IF D = {} THEN {} ELSE {m.r : m \in {x \in Range(c.classes[lin[CHOOSE i \in D : \A j \in D : i <= j]].skips) : x.fam = fam}}
ClassReasons(c, k) == IF k = 0 THEN {} ELSE ClassMarks(c, k, "rtest") \cup ClassMarks(c, k, "pytest")
FunReasons(c, fun) == {m.r : m \in Range(c.funs[fun].skips)}
Reasons(c, fun, k) == LET own == FunReasons(c, fun)
                      IN IF own = {} THEN ClassReasons(c, k) ELSE IF 0 \in own THEN own \cup ClassReasons(c, k) ELSE own

\* Markers of pytest's family: those a case is skipped for, when it has no other, and those its cases come from
PySkip(c, x) ==
    LET marks == Range(c.funs[x.fun].skips) \cup (IF x.cls = 0 THEN {} ELSE UNION {Range(c.classes[q].skips) : q \in Range(Lin(c.classes, x.cls))})
    IN marks # {} /\ \A m \in marks : m.fam = "pytest"
PyCases(c, x) == \/ c.funs[x.fun].dims # <<>> /\ c.funs[x.fun].py
                 \/ x.cls # 0 /\ c.cpy /\ ClassDims(c, Lin(c.classes, x.cls)) # <<>>

FunOk(c, n) == AnyGlob(c.fpats, c.names[n])
ClsOk(c, n) == AnyGlob(c.cpats, c.names[n])
Info(c, fun, k) == [fun |-> fun, cls |-> k, reasons |-> Reasons(c, fun, k)]

\* Every test case of file f: <<name of the class or 0, name of the function, case>> and what it is
FileCases(c, f) ==
    LET ns == {b \in Range(c.files[f].ns) : b.own}
        fs == {b \in ns : b.kind = "fun" /\ FunOk(c, b.n)}
        cs == {b \in ns : b.kind = "class" /\ ClsOk(c, b.n) /\ ~\E k \in Range(Lin(c.classes, b.ref)) : c.classes[k].init}
        ms(b) == {m \in AttrNames(c.classes, b.ref) : FunOk(c, m) /\ IsFunction(Attr(c.classes, b.ref, m))}
    IN UNION {{[key |-> <<f, 0, b.n, t>>, info |-> Info(c, b.ref, 0)] : t \in CasesOf(c, b.ref, 0)} : b \in fs}
       \cup UNION {UNION {LET fun == Attr(c.classes, b.ref, m).ref
                          IN {[key |-> <<f, b.n, m, t>>, info |-> Info(c, fun, b.ref)] : t \in CasesOf(c, fun, b.ref)} : m \in ms(b)} : b \in cs}
AllCases(c) == UNION {FileCases(c, f) : f \in {g \in 1..Len(c.files) : ~c.files[g].bad}}

Start(c) == LET all == AllCases(c)
                keys == {x.key : x \in all}
            IN [c |-> c, cases |-> [k \in keys |-> (CHOOSE x \in all : x.key = k).info],
                runs |-> <<>>, seen |-> {}, bads |-> {}, worst |-> 0, imported |-> {}, strict |-> TRUE]

ViaSetup(c, k, first, second) ==
    IF k = 0 THEN 0 ELSE
    LET a == Attr(c.classes, k, first)
        b == Attr(c.classes, k, second)
    IN IF IsFunction(a) THEN a.ref ELSE IF IsFunction(b) THEN b.ref ELSE 0
SetupOf(c, k) == ViaSetup(c, k, c.sm, c.su)
TeardownOf(c, k) == ViaSetup(c, k, c.tm, c.td)
\* Such a setup never does anything
OddSetup(c, k) == SetupOf(c, k) # 0 /\ c.funs[SetupOf(c, k)].kind # "plain"

Phase(run, ph) == {i \in 1..Len(run.ev) : run.ev[i].ph = ph}
Has(run, ph) == Phase(run, ph) # {}
Get(run, ph) == IF Has(run, ph) THEN run.ev[CHOOSE i \in Phase(run, ph) : TRUE] ELSE [rk |-> "ok", fun |-> 0, case |-> <<-2>>]
Idle == [cls |-> 0, inst |-> -1, used |-> TRUE, ev |-> <<>>]
CurOr(s) == IF s.runs = <<>> THEN Idle ELSE s.runs[Len(s.runs)]
Cur(s) == CurOr(s)
Infos(s) == {s.cases[k] : k \in DOMAIN s.cases}
Live(s) == {x \in Infos(s) : x.reasons = {}}
IsStatic(s, e) == e.inst = 0 /\ CurOr(s).cls # 0 /\ ~Has(CurOr(s), "body") /\ \E x \in Infos(s) : x.fun = e.fun /\ x.cls = CurOr(s).cls
InRun(s, e) == e.inst # 0 /\ e.inst = CurOr(s).inst

ViolNew(s, e) ==
    (IF {x \in Infos(s) : x.cls = e.cls} = {} THEN {"C20.foreign_instance", "C22.class"} ELSE {})
    \cup (IF {x \in Infos(s) : x.cls = e.cls} # {} /\ {x \in Live(s) : x.cls = e.cls} = {} THEN {"C23.instance"} ELSE {})
ViolSetup(s, e) ==
    IF ~InRun(s, e) THEN {"C22.stale"} ELSE
    (IF Has(Cur(s), "setup") THEN {"C22.setup_twice"} ELSE {})
    \cup (IF Has(Cur(s), "body") \/ Has(Cur(s), "teardown") THEN {"C22.setup_late"} ELSE {})
    \cup (IF SetupOf(s.c, Cur(s).cls) # e.fun THEN {"C22.setup_choice"} ELSE {})
ViolBody(s, e) ==
    LET inrun == InRun(s, e) \/ IsStatic(s, e)
        k == IF inrun THEN Cur(s).cls ELSE 0
        known == {x \in Infos(s) : x.fun = e.fun}
    IN (IF e.inst # 0 /\ ~inrun THEN {"C22.stale"} ELSE {})
       \cup (IF known = {} THEN {"C20.foreign_body", "C28.foreign_body"} ELSE {})
       \cup (IF known # {} /\ {x \in known : x.reasons = {}} = {}
           THEN {"C23.executed"} \cup (IF \E x \in known : PySkip(s.c, x) THEN {"C27.executed"} ELSE {}) ELSE {})
       \cup (IF known # {} /\ ~\E q \in DOMAIN s.cases : s.cases[q].fun = e.fun /\ q[4] = e.case
           THEN {"C25.arguments"} \cup (IF \E x \in known : PyCases(s.c, x) THEN {"C27.arguments"} ELSE {}) ELSE {})
       \cup (IF inrun /\ e.inst # -2 THEN
               (IF Has(Cur(s), "body") THEN {"C22.reused"} ELSE {})
               \cup (IF Has(Cur(s), "teardown") THEN {"C22.body_late"} ELSE {})
               \cup (IF SetupOf(s.c, k) # 0 /\ ~OddSetup(s.c, k) /\ ~Has(Cur(s), "setup") THEN {"C22.no_setup"} ELSE {})
               \cup (IF OddSetup(s.c, k) \/ (Has(Cur(s), "setup") /\ Get(Cur(s), "setup").rk # "ok") \/ Get(Cur(s), "new").rk # "ok"
                     THEN {"C22.body_after_failed_setup"} ELSE {})
             ELSE {})
ViolTeardown(s, e) ==
    IF ~InRun(s, e) THEN {"C22.stale"} ELSE
    (IF Has(Cur(s), "teardown") THEN {"C22.teardown_twice"} ELSE {})
    \cup (IF TeardownOf(s.c, Cur(s).cls) # e.fun THEN {"C22.teardown_choice"} ELSE {})

\* ------------------------------------------------------------------ records
Spoken(run, f) == LET q == SelectSeq(run.ev, LAMBDA x : x[f]) IN [i \in 1..Len(q) |-> q[i].seq]
Closed(run, f) == \E i \in 1..Len(run.ev) : run.ev[i][f]
Seqs(run) == {run.ev[i].seq : i \in 1..Len(run.ev)}
Tokens(e) == Range(e.out) \cup Range(e.err)
Fits(s, i, info, case) ==
    LET r == s.runs[i] IN
    /\ ~r.used /\ r.cls = info.cls
    /\ Has(r, "body") => Get(r, "body").fun = info.fun /\ Get(r, "body").case = case
    /\ (s.c.funs[info.fun].kind # "plain" => ~Has(r, "body"))
    /\ \A x \in 1..Len(r.ev) : (r.ev[x].so => Closed(r, "co")) /\ (r.ev[x].se => Closed(r, "ce"))
RunOf(s, e, info, case) ==
    IF Tokens(e) # {} THEN {i \in 1..Len(s.runs) : ~s.runs[i].used /\ Seqs(s.runs[i]) \cap Tokens(e) # {}}
    ELSE {i \in 1..Len(s.runs) : Fits(s, i, info, case)}

\* What ended the run: the last thing that was raised
Raised(run) == SelectSeq(run.ev, LAMBDA x : x.rk # "ok")
OddTeardown(s, info) == info.cls # 0 /\ TeardownOf(s.c, info.cls) # 0 /\ s.c.funs[TeardownOf(s.c, info.cls)].kind # "plain"
\* Something of the case is a coroutine or a generator and so could not run
Unrunnable(s, info) == s.c.funs[info.fun].kind # "plain" \/ (info.cls # 0 /\ OddSetup(s.c, info.cls)) \/ OddTeardown(s, info)
OutcomeOf(s, run, info) ==
    LET q == Raised(run)
        last == q[Len(q)]
    IN IF OddTeardown(s, info) /\ (q = <<>> \/ last.ph = "body") /\ Get(run, "new").rk = "ok" THEN "error"
       ELSE IF q = <<>> THEN (IF Unrunnable(s, info) THEN "error" ELSE "passed")
       ELSE IF last.rk = "assert" THEN "failed" ELSE "error"
ViolRun(s, e, info, case, i) ==
    LET run == s.runs[i]
        q == Raised(run)
        body == Has(run, "body")
        last == q[Len(q)]
        oddt == OddTeardown(s, info) /\ (q = <<>> \/ last.ph = "body") /\ info.cls # 0 /\ Get(run, "new").rk = "ok"
        settled == q # <<>> /\ ~oddt
        setup == info.cls = 0 \/ SetupOf(s.c, info.cls) = 0 \/ (Has(run, "setup") /\ Get(run, "setup").rk = "ok")
        began == info.cls # 0 /\ Has(run, "new") /\ Get(run, "new").rk = "ok"
    IN (IF run.cls # info.cls THEN {"C22.wrong_class"} ELSE {})
       \cup (IF body /\ Get(run, "body").fun # info.fun THEN {"C28.wrong_function"} ELSE {})
       \cup (IF body /\ Get(run, "body").fun = info.fun /\ Get(run, "body").case # case
           THEN {"C25.arguments"} \cup (IF PyCases(s.c, info) THEN {"C27.arguments"} ELSE {}) ELSE {})
       \cup (IF ~body /\ q = <<>> /\ ~Unrunnable(s, info) THEN {"C21.unrun", "C22.no_body", "C23.unrun"} ELSE {})
       \cup (IF e.outcome # OutcomeOf(s, run, info) THEN {"C21.outcome"} ELSE {})
       \cup (IF settled /\ e.rt # last.rt THEN {"C21.error_type"} ELSE {})
       \cup (IF settled /\ ~(last.seq \in Range(e.trace)) THEN {"C21.traceback"} ELSE {})
       \cup (IF began /\ ~OddSetup(s.c, info.cls) /\ SetupOf(s.c, info.cls) # 0 /\ ~Has(run, "setup") THEN {"C22.no_setup"} ELSE {})
       \cup (IF began /\ setup /\ TeardownOf(s.c, info.cls) # 0 /\ ~OddTeardown(s, info) /\ ~Has(run, "teardown") THEN {"C22.no_teardown"} ELSE {})
       \cup (IF Has(run, "teardown") /\ body /\ (CHOOSE a \in Phase(run, "teardown") : TRUE) < (CHOOSE b \in Phase(run, "body") : TRUE)
             THEN {"C22.teardown_early"} ELSE {})
       \cup (IF ~Closed(run, "co") /\ e.out # Spoken(run, "so") THEN {"C24.stdout"} ELSE {})
       \cup (IF ~Closed(run, "ce") /\ e.err # Spoken(run, "se") THEN {"C24.stderr"} ELSE {})

\* The run a record is about: one that explains it, if there is one
PickRun(s, e, info, case) ==
    LET R == RunOf(s, e, info, case)
        G == {i \in R : ViolRun(s, e, info, case, i) = {}}
        B == IF G = {} THEN R ELSE G
    IN IF R = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : i <= j

\* Why a record must not be there
Stranger(s, e) ==
    LET c == s.c
        ns == IF e.f = 0 THEN {} ELSE Range(c.files[e.f].ns)
        top == {b \in ns : b.n = (IF e.cn = 0 THEN e.n ELSE e.cn)}
        un == \/ (e.n # 0 /\ ~FunOk(c, e.n)) \/ (e.cn # 0 /\ ~ClsOk(c, e.cn))
        notfun == e.cn # 0 /\ \E b \in top : b.kind = "class" /\ ~IsFunction(Attr(c.classes, b.ref, e.n))
    IN {"C20.unknown"} \cup (IF un /\ top # {} THEN {"C31.selected"} ELSE {}) \cup (IF notfun THEN {"C28.reported"} ELSE {})
       \cup (IF e.f # 0 /\ c.files[e.f].bad THEN {"C30.import_record"} ELSE {})
       \cup (IF \E k \in DOMAIN s.cases : k[1] = e.f /\ k[2] = e.cn /\ k[3] = e.n
           THEN {"C25.unknown_case"} \cup (IF \E k \in DOMAIN s.cases : k[1] = e.f /\ k[2] = e.cn /\ k[3] = e.n /\ PyCases(c, s.cases[k]) THEN {"C27.unknown_case"} ELSE {}) ELSE {})
ViolRecord(s, e) ==
    LET key == <<e.f, e.cn, e.n, e.case>>
        info == s.cases[key]
        i == PickRun(s, e, info, e.case)
    IN IF key \notin DOMAIN s.cases
       THEN IF e.f # 0 /\ s.c.files[e.f].bad /\ e.f \notin s.bads /\ e.outcome = "error" /\ e.cn = 0 /\ e.n = 0 THEN {} ELSE Stranger(s, e)
       ELSE (IF key \in s.seen THEN {"C20.twice"} ELSE {})
            \cup (IF info.reasons # {}
                  THEN (IF e.outcome # "skipped" THEN {"C23.not_skipped"} \cup (IF PySkip(s.c, info) THEN {"C27.skip"} ELSE {}) ELSE {})
                       \cup (IF e.outcome = "skipped" /\ e.reason \notin info.reasons THEN {"C23.reason"} \cup (IF PySkip(s.c, info) THEN {"C27.reason"} ELSE {}) ELSE {})
                       \cup (IF Tokens(e) # {} THEN {"C24.foreign"} ELSE {})
                  ELSE (IF e.outcome = "skipped" THEN {"C23.skipped"} ELSE {})
                       \cup (IF i = 0
                             THEN IF info.cls = 0 /\ s.c.funs[info.fun].kind # "plain"
                                  THEN IF e.outcome = "error" THEN {} ELSE {"C21.outcome"}
                                  ELSE {"C23.unrun", "C22.no_body"} \cup (IF e.outcome = "passed" THEN {"C21.unrun"} ELSE {})
                                       \cup (IF Tokens(e) # {} THEN {"C24.foreign"} ELSE {})
                             ELSE ViolRun(s, e, info, e.case, i)))

Many(s) == Len(s.c.files) > 1
ViolExit(s, e) ==
    LET lost == DOMAIN s.cases \ s.seen
        bad == {f \in 1..Len(s.c.files) : s.c.files[f].bad}
    IN (IF lost # {} THEN {"C20.lost", "C31.lost"} ELSE {})
       \cup (IF lost # {} /\ Many(s) THEN {"C30.lost"} ELSE {})
       \cup (IF \E k \in lost : k[2] # 0 THEN {"C28.lost"} ELSE {})
       \cup (IF \E k \in lost : k[4] # <<>> THEN {"C25.lost"} ELSE {})
       \cup (IF \E k \in lost : k[4] # <<>> /\ PyCases(s.c, s.cases[k]) THEN {"C27.lost"} ELSE {})
       \cup (IF bad \ s.bads # {} THEN {"C20.no_error_record", "C30.import_record"} ELSE {})
       \cup (IF \E i \in 1..Len(s.runs) : ~s.runs[i].used THEN {"C20.extra_run", "C22.extra_run"} ELSE {})
       \cup (IF e.code # s.worst THEN {"C21.exit"} ELSE {})
       \cup (IF \E f \in 1..Len(s.c.files) : ~s.c.files[f].bad /\ f \notin s.imported THEN {"C30.not_imported"} ELSE {})

All == {"C20", "C21", "C22", "C23", "C24", "C25", "C28", "C30", "C31"}
Viol(s, e) ==
    CASE e.ev = "import" -> IF e.own THEN {} ELSE {"C30.path"}
      [] e.ev = "new" -> ViolNew(s, e)
      [] e.ev = "setup" -> ViolSetup(s, e)
      [] e.ev = "unregistered" -> {"C30.unregistered"}
      [] e.ev = "body" -> ViolBody(s, e)
      [] e.ev = "teardown" -> ViolTeardown(s, e)
      [] e.ev = "results" -> IF e.strict THEN {} ELSE {"C24.json"}
      [] e.ev = "record" -> ViolRecord(s, e)
      [] e.ev = "exit" -> ViolExit(s, e)
      [] e.ev = "hang" -> {p \o ".hang" : p \in All}
      [] OTHER -> {p \o ".fail" : p \in All}

Ph(e) == [ph |-> e.ev, rk |-> e.rk, rt |-> e.rt, fun |-> e.fun, case |-> e.case, seq |-> e.seq, so |-> e.so, se |-> e.se, co |-> e.co, ce |-> e.ce]
AddRun(s, e) == [s EXCEPT !.runs = Append(@, [cls |-> e.cls, inst |-> e.inst, used |-> FALSE, ev |-> <<Ph(e)>>])]
ToRun(s, e) == [s EXCEPT !.runs[Len(s.runs)].ev = Append(@, Ph(e))]
Apply(s, e) ==
    CASE e.ev = "import" -> [s EXCEPT !.imported = @ \cup {e.f}]
      [] e.ev = "new" -> AddRun(s, e)
      [] e.ev \in {"setup", "teardown"} -> IF InRun(s, e) /\ s.runs # <<>> THEN ToRun(s, e) ELSE AddRun(s, e)
      [] e.ev = "body" -> IF (e.inst # 0 /\ InRun(s, e)) \/ IsStatic(s, e) THEN ToRun(s, e) ELSE AddRun(s, e)
      [] e.ev = "record" ->
            LET key == <<e.f, e.cn, e.n, e.case>>
                known == key \in DOMAIN s.cases
                i == IF known /\ s.cases[key].reasons = {} THEN PickRun(s, e, s.cases[key], e.case) ELSE 0
                s1 == [s EXCEPT !.seen = IF known THEN @ \cup {key} ELSE @,
                                !.bads = IF ~known /\ e.f # 0 THEN @ \cup {e.f} ELSE @,
                                !.worst = IF e.outcome \in {"passed", "skipped"} THEN @ ELSE 1]
            IN IF i = 0 THEN s1 ELSE [s1 EXCEPT !.runs[i].used = TRUE]
      [] OTHER -> s
=============================================================================
