------------------------------- MODULE LintMC -------------------------------
EXTENDS Lint, TLC, Json
CONSTANT Depth
Ks == {"G01", "G02", "G03", "G54", "G55", "D01", "ABo", "ABc"}
VARIABLES h, s, open, mode
vars == <<h, s, open, mode>>
Rules == <<"DEP001", "DEP002", "GRB001">>
Init == h = <<>> /\ s = Fresh /\ open = 0 /\ mode = <<"">>
Step(k) ==
  /\ Len(h) < Depth
  /\ (k = "ABc" => open > 0) /\ (k = "ABo" => open = 0)
  /\ h' = Append(h, k)
  /\ open' = open + (IF k = "ABo" THEN 1 ELSE IF k = "ABc" THEN -1 ELSE 0)
  /\ s' = LintStep(s, k, Len(h) + 1, Rules)
  /\ mode' = Append(mode, IF k \in Modes THEN k ELSE mode[Len(mode)])   \* interpolation mode after each command
Next == \E k \in Ks : Step(k)
Spec == Init /\ [][Next]_vars
Reported(id) == {s.reports[i][2] : i \in {j \in 1..Len(s.reports) : s.reports[j][1] = id}}
Deprecated == Reported("DEP001") = {q \in 1..Len(h) : h[q] = "G54"} /\ Reported("DEP002") = {q \in 1..Len(h) : h[q] = "G55"}
\* mode in force before command q when the commands in D are left out
RECURSIVE ModeAt(_, _)
ModeAt(q, D) == IF q = 1 THEN "" ELSE IF h[q - 1] \in Modes /\ (q - 1) \notin D THEN h[q - 1] ELSE ModeAt(q - 1, D)
\* redundant commands may be deleted, all of them, without changing any draw
Redundant == \A q \in 1..Len(h) : h[q] = "D01" => ModeAt(q, Reported("GRB001")) = ModeAt(q, {})
\* every command that repeats the mode is reported unless a block ended since the mode was set
Complete == \A q \in 1..Len(h) : h[q] \in Modes /\ q \notin Reported("GRB001") =>
              mode[q] # h[q] \/ \E i \in 1..(q - 1) : h[i] = "ABc" /\ \A j \in (i + 1)..(q - 1) : h[j] \notin Modes
\* histories are emitted and replayed as documents
Emit == IF Len(h) = Depth /\ open = 0 THEN PrintT(<<"BEHAVIOUR", ToJson(h)>>) ELSE TRUE
InOrder == \A i, j \in 1..Len(s.reports) : i < j => s.reports[i][2] < s.reports[j][2]
=============================================================================
