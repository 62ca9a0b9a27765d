-------------------------------- MODULE Lint --------------------------------
(***************************************************************************)
(* The linter walks over the commands of a document once.  Its state is    *)
(* the interpolation command last seen; rules report commands.             *)
(***************************************************************************)
EXTENDS Document
Modes == {"G01", "G02", "G03"}
Fresh == [last |-> "", reports |-> <<>>]
On(rules, id, q, s) == IF \E i \in 1..Len(rules) : rules[i] = id THEN [s EXCEPT !.reports = Append(@, <<id, q>>)] ELSE s
\* command q of kind k
LintStep(s, k, q, rules) ==
  CASE k = "G54" -> On(rules, "DEP001", q, s)
    [] k = "G55" -> On(rules, "DEP002", q, s)
    [] k \in Modes -> LET n == IF s.last = k THEN On(rules, "GRB001", q, s) ELSE s IN [n EXCEPT !.last = k]
    [] k = "ABc" -> [s EXCEPT !.last = ""]     \* what is in force after a block is not assumed
    [] OTHER -> s
\* events for listeners: the callbacks of the command except the general ones
General == {"AD", "TA", "TF", "TO"}
Events(c, heard) == SelectSeq(Visits(c), LAMBDA v : v[1] \in heard /\ v[1] \notin General)
=============================================================================
