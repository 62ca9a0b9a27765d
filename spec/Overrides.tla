------------------------------ MODULE Overrides ------------------------------
(***************************************************************************)
(* Parsers build trees from classes of nodes.  A parser is made with a set *)
(* of kinds it has its own classes for; every node of such a kind is of    *)
(* that parser's class, every other node of the class the library has.     *)
(***************************************************************************)
EXTENDS Document
Set(q) == {q[i] : i \in 1..Len(q)}
\* kinds of the nodes made for a command, one entry per node
General == {"AD", "TA", "TF", "TO"}
Kinds(c) == LET v == Visits(c) IN SelectSeq([i \in 1..Len(v) |-> v[i][1]], LAMBDA k : k \notin General)
RECURSIVE AllKinds(_), HowMany(_, _)
AllKinds(cs) == IF cs = <<>> THEN <<>> ELSE Kinds(Head(cs)) \o AllKinds(Tail(cs))
HowMany(q, k) == IF q = <<>> THEN 0 ELSE (IF Head(q) = k THEN 1 ELSE 0) + HowMany(Tail(q), k)
Owner(p, over, k) == IF k \in over THEN p ELSE 0
\* seen: <<kind, owner, how many>>; "~" marks kinds that are parts of others (blocks, operators, points)
SeenBad(src, p, over, seen) ==
  LET kinds == AllKinds(src)
      stray == {i \in 1..Len(seen) : seen[i][2] # Owner(p, over, seen[i][1])}
      missing == {k \in Set(kinds) : ~\E i \in 1..Len(seen) : seen[i][1] = k /\ seen[i][3] = HowMany(kinds, k)}
  IN IF stray # {} THEN LET i == CHOOSE x \in stray : TRUE IN
          seen[i][1] \o " of class " \o (IF seen[i][2] = 0 THEN "of the library" ELSE "of another kind or parser") \o " instead of " \o (IF seen[i][1] \in over THEN "its own" ELSE "the library's")
     ELSE IF missing # {} THEN "number of " \o (CHOOSE k \in missing : TRUE)
     ELSE ""
=============================================================================
