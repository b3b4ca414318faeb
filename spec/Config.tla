------------------------------- MODULE Config -------------------------------
(* Reading the pytest settings from pyproject.toml (C15).
   cfg.file is "ok", or the way in which the file cannot be used; cfg.section says whether [tool.pytest.ini_options] is
   there; a setting is [kind |-> "absent" | "array" | other, items |-> sequence of [str |-> is it a string, v |-> token]].
   One event per setting, in the order in which they are read. *)
EXTENDS Naturals, Sequences, FiniteSets

Settings == {"testpaths", "python_files", "python_classes", "python_functions"}
Usable(c) == c.file = "ok" /\ c.section
Strings(items) == LET q == SelectSeq(items, LAMBDA x : x.str) IN [i \in 1..Len(q) |-> q[i].v]
Value(c, key) == IF Usable(c) /\ c.set[key].kind = "array" THEN Strings(c.set[key].items) ELSE <<>>

Start(c) == [c |-> c, read |-> {}]
Viol(s, e) == CASE e.ev = "setting" ->
                     (IF e.key \in s.read THEN {"C15.twice"} ELSE {})
                     \cup (IF e.v # Value(s.c, e.key) THEN {"C15.value"} ELSE {})
                [] e.ev = "done" -> IF s.read # Settings THEN {"C15.unread"} ELSE {}
                [] OTHER -> {"C15.fail"}
Apply(s, e) == IF e.ev = "setting" THEN [s EXCEPT !.read = @ \cup {e.key}] ELSE s
=============================================================================
