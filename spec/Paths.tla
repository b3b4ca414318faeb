-------------------------------- MODULE Paths --------------------------------
(* A small file system: a tree is a sequence of nodes [p |-> path, kind |-> "dir" | "file" | "link", to |-> path],
   a path is a sequence of names from the top; `to' is relative to the directory of the link and may contain "..". *)
EXTENDS Naturals, Sequences, FiniteSets

Missing == <<"<missing>">>
Parent(p) == IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

NodeAt(tree, p) == {i \in 1..Len(tree) : tree[i].p = p}
KindAt(tree, p) == IF p = <<>> THEN "dir"
                   ELSE IF NodeAt(tree, p) = {} THEN "none" ELSE tree[CHOOSE i \in NodeAt(tree, p) : TRUE].kind

RECURSIVE Walk(_, _, _, _)
Walk(tree, cur, rest, fuel) ==
    IF fuel = 0 THEN Missing
    ELSE IF rest = <<>> THEN cur
    ELSE LET c == Head(rest) IN
         IF KindAt(tree, cur) # "dir" THEN Missing
         ELSE IF c = "." THEN Walk(tree, cur, Tail(rest), fuel - 1)
         ELSE IF c = ".." THEN Walk(tree, Parent(cur), Tail(rest), fuel - 1)
         ELSE LET p == Append(cur, c)
                  k == KindAt(tree, p)
              IN IF k = "none" THEN Missing
                 ELSE IF k = "link" THEN Walk(tree, cur, tree[CHOOSE i \in NodeAt(tree, p) : TRUE].to \o Tail(rest), fuel - 1)
                 ELSE Walk(tree, p, Tail(rest), fuel - 1)
\* The real location of path p, or Missing
Resolve(tree, p) == Walk(tree, <<>>, p, 60)
Exists(tree, p) == Resolve(tree, p) # Missing

\* "." and ".." taken by text alone
RECURSIVE Lex(_, _)
Lex(done, rest) == IF rest = <<>> THEN done
                   ELSE IF Head(rest) = "." THEN Lex(done, Tail(rest))
                   ELSE IF Head(rest) = ".." /\ done # <<>> THEN Lex(Parent(done), Tail(rest))
                   ELSE Lex(Append(done, Head(rest)), Tail(rest))
Lexical(p) == Lex(<<>>, p)

\* Do a and b denote the same file?  What does not exist is compared by text.
Same(tree, a, b) == LET ra == Resolve(tree, a)
                        rb == Resolve(tree, b)
                    IN IF ra = Missing /\ rb = Missing THEN Lexical(a) = Lexical(b) ELSE ra = rb
=============================================================================
