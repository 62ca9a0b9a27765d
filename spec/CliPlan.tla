------------------------------- MODULE CliPlan -------------------------------
(* Names the call every recorded command line stands for. *)
EXTENDS Cli, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, s
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = Fresh
Next == LET r == Traces[t] IN
  /\ l <= Len(r.args) /\ l' = l + 1 /\ t' = t
  /\ IF l < Len(r.args) THEN s' = Read(r.cmd, s, r.args[l + 1])
     ELSE s' = s /\ PrintT(<<"CALL", r.id, Outcome(r.cmd, s, Set(r.files)), Output(r.cmd, s)>>)
Spec == Init /\ [][Next]_<<t, l, s>>
=============================================================================
