------------------------------- MODULE Collect -------------------------------
(* Static collection of tests (C32, C33) and its order (C40).
   cfg: names, tree (nodes with p, kind and mod: the module a file holds, or 0), root, given, testpaths (paths from the top),
   files, classpats, funcpats (patterns in force), mods (sequence of [bad, funcs]) and classes: all classes of all modules, bases
   before subclasses, each [m, n, init, attrs, bases] as in Lookup, with m its module and n its name.
   funcs and attrs are what a body does to names, in order, each [n, kind, ref]: kind "fun" defines a function, the tag in ref
   being the one case that it is parametrized with (0: it is not); "other" binds a fixture, a property or a value that is no
   function; "alias" binds n to what the name in ref is bound to; "del" deletes n. *)
EXTENDS Tree, Lookup

RECURSIVE Bound(_, _)
\* The names bound in the end, with what they are bound to; outer: the names bound around the body
Bound(q, outer) ==
    IF q = <<>> THEN <<>>
    ELSE LET b == Bound(SubSeq(q, 1, Len(q) - 1), outer)
             e == q[Len(q)]
             rest == SelectSeq(b, LAMBDA x : x.n # e.n)
             D(names) == {i \in 1..Len(names) : names[i].n = e.ref}
         IN CASE e.kind = "del" -> rest
              [] e.kind = "alias" /\ D(b) # {} -> Append(rest, [b[CHOOSE i \in D(b) : TRUE] EXCEPT !.n = e.n])
              [] e.kind = "alias" /\ D(outer) # {} -> Append(rest, [outer[CHOOSE i \in D(outer) : TRUE] EXCEPT !.n = e.n])
              [] OTHER -> Append(rest, e)
Functions(c, m) == Bound(c.mods[m].funcs, <<>>)
\* The classes with what their names are bound to in the end
Made(c) == [k \in 1..Len(c.classes) |-> [c.classes[k] EXCEPT !.attrs = Bound(@, Functions(c, c.classes[k].m))]]

Missing(c) == {i \in 1..Len(c.given) : Kind(c, c.given[i]) = "none"}
Roots(c) == LET range(q) == {q[i] : i \in 1..Len(q)}
            IN IF c.given # <<>> THEN range(c.given) ELSE IF c.testpaths # <<>> THEN range(c.testpaths) ELSE {c.root}
Fits(c, p) == LET n == Chars(c, p[Len(p)]) IN EndsPy(n) /\ AnyGlob(c.files, n)
\* No directory strictly between the given path and the file is left out; hidden files are not
Reached(c, g, p) == IsPre(g, p) /\ \A i \in (Len(g) + 1)..(Len(p) - 1) : ~NotSearched(Chars(c, p[i]))
Collected(c) == {x \in Nodes(c) : x.kind = "file" /\ Fits(c, x.p) /\ \E g \in Roots(c) : Reached(c, g, x.p)}

IsTestFun(c, n) == AnyGlob(c.funcpats, Chars(c, n))
IsTestClass(c, n) == AnyGlob(c.classpats, Chars(c, n))

\* Classes as seen when module m is collected: the functions of its own classes count only in test classes
View(c, m) == LET made == Made(c) IN [k \in 1..Len(c.classes) |->
    IF c.classes[k].m = m /\ ~IsTestClass(c, c.classes[k].n) THEN [made[k] EXCEPT !.attrs = SelectSeq(@, LAMBDA x : ~IsFunction(x))] ELSE made[k]]
Candidates(c, m) == {k \in 1..Len(c.classes) : c.classes[k].m = m /\ IsTestClass(c, c.classes[k].n)
                        /\ \A j \in (k + 1)..Len(c.classes) : c.classes[j].m = m => c.classes[j].n # c.classes[k].n}
Lineage(c, k) == LET l == Lin(c.classes, k) IN {l[i] : i \in 1..Len(l)}
HasInit(c, k) == \E j \in Lineage(c, k) : c.classes[j].init
Unloadable(c, k) == \E j \in Lineage(c, k) : c.mods[c.classes[j].m].bad
\* A file that cannot be read as Python, or one of whose test classes has a base class in such a file
Broken(c, m) == c.mods[m].bad \/ \E k \in Candidates(c, m) : Unloadable(c, k)
Skipped(c, m) == {k \in Candidates(c, m) : HasInit(c, k)}

Id(c, p, cl, f, tag) == [abs |-> ~IsPre(c.root, p), p |-> p, c |-> cl, f |-> f, tag |-> tag]
TestsOf(c, x) ==
    LET m == x.mod
        fs == Functions(c, m)
        v == View(c, m)
    IN IF Broken(c, m) THEN {}
       ELSE {Id(c, x.p, 0, fs[i].n, fs[i].ref) : i \in {i \in 1..Len(fs) : IsTestFun(c, fs[i].n) /\ IsFunction(fs[i])}}
            \cup UNION {{Id(c, x.p, c.classes[k].n, n, Attr(v, k, n).ref) : n \in {n \in AttrNames(v, k) : IsTestFun(c, n) /\ IsFunction(Attr(v, k, n))}}
                        : k \in Candidates(c, m) \ Skipped(c, m)}
Tests(c) == UNION {TestsOf(c, x) : x \in Collected(c)}
Errors(c) == {[abs |-> ~IsPre(c.root, x.p), p |-> x.p] : x \in {x \in Collected(c) : Broken(c, x.mod)}}
Warnings(c) == UNION {{[p |-> x.p, c |-> c.classes[k].n] : k \in Skipped(c, x.mod)} : x \in {x \in Collected(c) : ~Broken(c, x.mod)}}

Range(q) == {q[i] : i \in 1..Len(q)}

-----------------------------------------------------------------------------
(* Order: the given paths in their order, below them depth first by name; in a file, functions, classes and a class's own
   methods as they are defined.  How functions and classes, own and inherited methods interleave is left open, and so is the
   place of a name that is bound more than once. *)
Starts(c) == IF c.given # <<>> THEN c.given ELSE IF c.testpaths # <<>> THEN c.testpaths ELSE <<c.root>>
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Rank(c, p) == LET g == Starts(c)
                  S == {i \in 1..Len(g) : Reached(c, g[i], p)}
              IN IF S = {} THEN 0 ELSE First(S)
\* a is less than b: sequences of numbers, in the order of a dictionary
Less(a, b) == LET D == {i \in 1..Len(a) : i <= Len(b) /\ a[i] # b[i]}
              IN IF D = {} THEN Len(a) < Len(b) ELSE a[First(D)] < b[First(D)]
PathLess(c, p, q) == LET D == {i \in 1..Len(p) : i <= Len(q) /\ p[i] # q[i]}
                     IN IF D = {} THEN Len(p) < Len(q) ELSE Less(Chars(c, p[First(D)]), Chars(c, q[First(D)]))
FileBefore(c, p, q) == LET i == Rank(c, p) j == Rank(c, q) IN i < j \/ (i = j /\ PathLess(c, p, q))
FilesInOrder(c, ids) == \A i \in 1..(Len(ids) - 1) : ids[i].p = ids[i + 1].p \/ FileBefore(c, ids[i].p, ids[i + 1].p)
\* The step of a body that defines a name, or 0
Where(q, n) == LET D == {i \in 1..Len(q) : q[i].n = n} IN IF Cardinality(D) = 1 /\ \A i \in D : q[i].kind = "fun" THEN First(D) ELSE 0
ModOf(c, p) == (CHOOSE x \in Nodes(c) : x.p = p).mod
ClassAt(c, m, n) == LET D == {k \in 1..Len(c.classes) : c.classes[k].m = m /\ c.classes[k].n = n} IN IF Cardinality(D) = 1 THEN First(D) ELSE 0
Follows(i, j) == i = 0 \/ j = 0 \/ i <= j
FileInOrder(c, ids) ==
    LET m == ModOf(c, ids[1].p)
        fs == SelectSeq(ids, LAMBDA x : x.c = 0)
        ms == SelectSeq(ids, LAMBDA x : x.c # 0)
        inherited(k) == UNION {{b.n : b \in Range(c.classes[j].attrs)} : j \in Lineage(c, k) \ {k}}
        own(k, n) == IF n \in inherited(k) THEN 0 ELSE Where(c.classes[k].attrs, n)
    IN /\ \A i, j \in 1..Len(fs) : i < j => Follows(Where(c.mods[m].funcs, fs[i].f), Where(c.mods[m].funcs, fs[j].f))
       /\ \A i, j \in 1..Len(ms) : i < j =>
            LET a == ClassAt(c, m, ms[i].c) b == ClassAt(c, m, ms[j].c)
            IN /\ Follows(a, b)
               /\ (a = b /\ a # 0) => Follows(own(a, ms[i].f), own(a, ms[j].f))
InOrder(c, ids) == /\ FilesInOrder(c, ids)
                   /\ \A p \in {x.p : x \in Range(ids)} : FileInOrder(c, SelectSeq(ids, LAMBDA x : x.p = p))

-----------------------------------------------------------------------------
Outcome(e) == IF e.ev = "collected" THEN <<e.ids, e.errors, e.warnings>> ELSE IF e.ev = "missing" THEN <<e.p>> ELSE <<>>
Start(c) == [c |-> c, last |-> <<>>]
\* e.again: the same project, whose files were created in another order
Viol(t, e) ==
    LET s == t.c IN
    IF e.again THEN IF t.last = Outcome(e) THEN {} ELSE {"C40.changed"}
    ELSE IF e.ev = "missing" THEN IF \E i \in Missing(s) : s.given[i] = e.p THEN {} ELSE {"C33.missing"}
    ELSE IF e.ev # "collected" THEN {"C32.fail", "C33.fail", "C40.fail"}
    ELSE IF Missing(s) # {} THEN {"C33.unnoticed"}
    ELSE LET ids == Range(e.ids)
             exp == Tests(s)
         IN (IF exp \ ids # {} THEN {"C32.lost"} ELSE {})
            \cup (IF ids \ exp # {} THEN {"C32.extra"} ELSE {})
            \cup (IF Cardinality(ids) # Len(e.ids) THEN {"C32.twice"} ELSE {})
            \cup (IF InOrder(s, SelectSeq(e.ids, LAMBDA x : x \in exp)) THEN {} ELSE {"C40.order"})
            \cup (IF Errors(s) \ Range(e.errors) # {} THEN {"C33.hidden"} ELSE {})
            \cup (IF Range(e.errors) \ Errors(s) # {} THEN {"C33.unfounded"} ELSE {})
            \cup (IF Cardinality(Range(e.errors)) # Len(e.errors) THEN {"C33.repeated"} ELSE {})
            \cup (IF Range(e.warnings) # Warnings(s) \/ Cardinality(Range(e.warnings)) # Len(e.warnings) THEN {"C33.warnings"} ELSE {})
Apply(t, e) == IF e.again THEN t ELSE [t EXCEPT !.last = Outcome(e)]
=============================================================================
