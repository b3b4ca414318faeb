-------------------------------- MODULE ParRun --------------------------------
(* A pytest run over worker processes: parallel (C06-C09) or one sequential launch (C10).

   cfg: kind "parallel" | "seq"; tree, root (see Paths); ids: sequence of [f, t, big] - path from the root, identity of
   the text after the file, and whether the id is too long for any process to be started with it; n, mode;
   env: sequence of [k, v]; initial: number of initial arguments; extra: number of extra arguments; dir: is a working
   directory given (seq); prog: can the program be started at all; subs: are subprojects separated.

   Events: start (a process begins: cwd, argv, env), end (it is about to end with a status or by a signal), stuck (it
   waited in vain for another worker), return (the run returned), section (one headed part of the run's stdout),
   errpart (stderr of a worker found in the run's stderr), done. *)
EXTENDS Paths, Integers, TLC

Max(a, b) == IF a > b THEN a ELSE b
Real(c, p) == LET r == Resolve(c.tree, p) IN IF r = Missing THEN <<"?">> \o Lexical(p) ELSE r
Key(c, base, x) == <<Real(c, base \o x.f), x.t>>
IdKey(c, i) == Key(c, c.root, c.ids[i])

\* The directory a test has to run in; Missing when it is left open (its file does not exist)
Enclosing(root, p) == {SubSeq(p, 1, i) : i \in (Len(root) + 1)..(Len(p) - 1)}
Home(c, key) ==
    LET r == key[1]
        D == {d \in Enclosing(c.root, r) : Exists(c.tree, d \o <<"pyproject.toml">>)}
    IN IF r[1] = "?" THEN Missing
       ELSE IF ~c.subs \/ ~IsPrefix(c.root, r) \/ D = {} THEN c.root
       ELSE CHOOSE d \in D : \A x \in D : Len(x) <= Len(d)

Start(c) == LET all == TLCEval([i \in 1..Len(c.ids) |-> IdKey(c, i)])
                keys == {all[i] : i \in 1..Len(c.ids)}
            IN [c |-> c, todo |-> [k \in keys |-> Cardinality({i \in 1..Len(c.ids) : all[i] = k})],
                cwds |-> [p \in {} |-> <<>>], ended |-> [p \in {} |-> 0], outs |-> [p \in {} |-> FALSE],
                errs |-> [p \in {} |-> FALSE], relayed |-> {}, errseen |-> {}, empties |-> 0, sections |-> 0, last |-> -1, ret |-> -1]

Bigs(c) == {IdKey(c, i) : i \in {j \in 1..Len(c.ids) : c.ids[j].big}}
Left(s) == {k \in DOMAIN s.todo : s.todo[k] > 0}
\* Some worker could not be started
NoStart(s) == (~s.c.prog /\ Left(s) # {}) \/ Left(s) \cap Bigs(s.c) # {}
Started(s) == DOMAIN s.cwds

Tests(e) == SelectSeq(e.argv, LAMBDA a : a.k = "test")
LastFor(ps, k) == LET I == {i \in 1..Len(ps) : ps[i].k = k} IN ps[CHOOSE i \in I : \A j \in I : j <= i].v
EnvOk(c, e) == \A i \in 1..Len(c.env) : \E j \in 1..Len(e.env) : e.env[j].k = c.env[i].k /\ e.env[j].v = LastFor(c.env, c.env[i].k)
InitialOk(c, e) == /\ Len(e.argv) >= c.initial
                   /\ \A i \in 1..c.initial : e.argv[i].k = "init" /\ e.argv[i].i = i
RootdirOk(c, e) == \E i \in 1..(Len(e.argv) - 1) : /\ e.argv[i].k = "rootdir" /\ e.argv[i + 1].k = "dir"
                                                   /\ Resolve(c.tree, e.argv[i + 1].f) = e.cwd
                                                   /\ \A j \in 1..Len(e.argv) : e.argv[j].k = "rootdir" => j = i

PerDir(s, d) == Cardinality({p \in Started(s) : s.cwds[p] = d})
Limit(c) == IF c.mode = "no" THEN 1 ELSE Max(c.n, 1)

ViolStartPar(s, e) ==
    LET c == s.c
        ts == Tests(e)
        all == TLCEval([i \in 1..Len(ts) |-> Key(c, e.cwd, ts[i])])
        K(i) == all[i]
    IN (IF \E i \in 1..Len(ts) : K(i) \notin DOMAIN s.todo
              \/ Cardinality({j \in 1..Len(ts) : K(j) = K(i)}) > s.todo[K(i)] THEN {"C06.foreign"} ELSE {})
       \cup (IF \E i \in 1..Len(ts) : LET h == Home(c, K(i)) IN h # Missing /\ h # e.cwd THEN {"C06.place"} ELSE {})
       \cup (IF ts = <<>> THEN {"C06.notests"} ELSE {})
       \cup (IF ~RootdirOk(c, e) THEN {"C06.rootdir"} ELSE {})
       \cup (IF ~InitialOk(c, e) THEN {"C06.initial"} ELSE {})
       \cup (IF ~EnvOk(c, e) THEN {"C06.env"} ELSE {})
       \cup (IF \E a \in {e.argv[i] : i \in 1..Len(e.argv)} : a.k = "other" THEN {"C06.argument"} ELSE {})
       \cup (IF PerDir(s, e.cwd) + 1 > Limit(c) THEN {"C06.toomany"} ELSE {})

\* The whole argument vector of a sequential launch
SeqArgv(c) ==
    LET init == [i \in 1..c.initial |-> [k |-> "init", i |-> i, f |-> <<>>, t |-> 0]]
        rd == IF c.dir THEN << [k |-> "rootdir", i |-> 0, f |-> <<>>, t |-> 0], [k |-> "dir", i |-> 0, f |-> c.root, t |-> 0] >> ELSE <<>>
        ids == [i \in 1..Len(c.ids) |-> [k |-> "test", i |-> 0, f |-> c.ids[i].f, t |-> c.ids[i].t]]
        ex == [i \in 1..c.extra |-> [k |-> "extra", i |-> i, f |-> <<>>, t |-> 0]]
    IN init \o rd \o ids \o ex
ViolStartSeq(s, e) ==
    (IF Started(s) # {} THEN {"C10.twice"} ELSE {})
    \cup (IF e.argv # SeqArgv(s.c) THEN {"C10.argv"} ELSE {})
    \cup (IF s.c.dir /\ e.cwd # s.c.root THEN {"C10.cwd"} ELSE {})
    \cup (IF ~EnvOk(s.c, e) THEN {"C10.env"} ELSE {})

Failing(s) == {p \in DOMAIN s.ended : s.ended[p] # 0}
ViolReturnPar(s, e) ==
    (IF Started(s) \ DOMAIN s.ended # {} THEN {"C07.early"} ELSE {})
    \cup (IF Left(s) # {} /\ ~NoStart(s) THEN {"C06.lost"} ELSE {})
    \cup (IF e.ret = 0 /\ Failing(s) # {} THEN {"C07.masked"} ELSE {})
    \cup (IF e.ret = 0 /\ NoStart(s) THEN {"C07.nostart"} ELSE {})
    \cup (IF e.ret # 0 /\ Failing(s) = {} /\ Left(s) = {} /\ s.c.prog THEN {"C07.invented"} ELSE {})
    \cup (IF Failing(s) # {} /\ ~NoStart(s) /\ (\A p \in Failing(s) : s.ended[p] > 0) /\ e.ret \notin {s.ended[p] : p \in Failing(s)}
          THEN {"C07.status"} ELSE {})
ViolReturnSeq(s, e) ==
    (IF s.c.prog /\ ~(\E i \in 1..Len(s.c.ids) : s.c.ids[i].big) /\ Started(s) = {} THEN {"C10.notstarted"} ELSE {})
    \cup (IF Started(s) \ DOMAIN s.ended # {} THEN {"C10.early"} ELSE {})
    \cup (IF \E p \in DOMAIN s.ended : IF s.ended[p] < 0 THEN e.ret = 0 ELSE e.ret # s.ended[p] THEN {"C10.status"} ELSE {})
    \cup (IF Started(s) = {} /\ e.ret = 0 THEN {"C10.nostart"} ELSE {})

\* e.who: the worker whose whole output the section is, 0 when it is empty, -1 when it is nobody's
ViolSection(s, e) ==
    (IF e.num <= s.last THEN {"C08.order"} ELSE {})
    \cup (IF e.who = -1 THEN {"C08.garbled"} ELSE {})
    \cup (IF e.who > 0 /\ e.who \in s.relayed THEN {"C08.twice"} ELSE {})
ViolErr(s, e) == IF e.times # 1 THEN {"C08.stderr"} ELSE {}
ViolDone(s) ==
    LET loud == {p \in DOMAIN s.outs : s.outs[p]}
        quiet == {p \in DOMAIN s.outs : ~s.outs[p]}
    IN (IF loud \ s.relayed # {} THEN {"C08.lost"} ELSE {})
       \cup (IF {p \in DOMAIN s.errs : s.errs[p]} \ s.errseen # {} THEN {"C08.lost_stderr"} ELSE {})
       \cup (IF s.empties < Cardinality(quiet) THEN {"C08.header"} ELSE {})
       \cup (IF ~NoStart(s) /\ s.sections # Cardinality(Started(s)) THEN {"C08.sections"} ELSE {})

Par(s) == s.c.kind = "parallel"
Viol(s, e) ==
    CASE e.ev = "start" -> IF Par(s) THEN ViolStartPar(s, e) ELSE ViolStartSeq(s, e)
      [] e.ev = "end" -> {}
      [] e.ev = "stuck" -> {"C09.stuck"}
      [] e.ev = "return" -> IF Par(s) THEN ViolReturnPar(s, e) ELSE ViolReturnSeq(s, e)
      [] e.ev = "section" -> ViolSection(s, e)
      [] e.ev = "errpart" -> ViolErr(s, e)
      [] e.ev = "done" -> IF Par(s) THEN ViolDone(s) ELSE {}
      [] e.ev = "hang" -> {"C06.hang", "C07.hang", "C08.hang", "C09.hang", "C10.hang"}
      [] OTHER -> {"C06.fail", "C07.fail", "C08.fail", "C09.fail", "C10.fail"}

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Sub(a, b) == IF a > b THEN a - b ELSE 0
Apply(s, e) ==
    CASE e.ev = "start" ->
            LET ts == Tests(e)
                all == TLCEval([i \in 1..Len(ts) |-> Key(s.c, e.cwd, ts[i])])
            IN [s EXCEPT !.todo = [k \in DOMAIN s.todo |-> Sub(s.todo[k], Cardinality({i \in 1..Len(ts) : all[i] = k}))],
                         !.cwds = Put(@, e.pid, e.cwd)]
      [] e.ev = "end" -> [s EXCEPT !.ended = Put(@, e.pid, IF e.signal > 0 THEN -1 ELSE e.exit),
                                   !.outs = Put(@, e.pid, e.out), !.errs = Put(@, e.pid, e.err)]
      [] e.ev = "return" -> [s EXCEPT !.ret = e.ret]
      [] e.ev = "section" -> [s EXCEPT !.last = e.num, !.sections = @ + 1, !.empties = IF e.who = 0 THEN @ + 1 ELSE @,
                                       !.relayed = IF e.who > 0 THEN @ \cup {e.who} ELSE @]
      [] e.ev = "errpart" -> [s EXCEPT !.errseen = IF e.times > 0 THEN @ \cup {e.pid} ELSE @]
      [] OTHER -> s
=============================================================================
