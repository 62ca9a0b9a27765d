------------------------------- MODULE CliTrace ------------------------------
(* One record is one command line run in a directory with files: exit code,
   files that changed with the digests of their new contents, digest of what was
   printed; `ref` is the digest of what the call of the API gives ("error ..." if it
   raises). *)
EXTENDS Cli, TLC, Json, FiniteSets
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, s
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = Fresh
Names(r) == {r.changed[i].name : i \in 1..Len(r.changed)}
Judge(r) ==
  LET o == Outcome(r.cmd, s, Set(r.files)) IN
  IF o = "usage"
  THEN IF r.exit # 2 THEN "exit code " \o ToString(r.exit) \o " for a usage error" ELSE IF r.changed # <<>> THEN "usage error changed " \o ToString(Names(r)) ELSE ""
  ELSE IF r.failed
  THEN IF r.exit = 0 THEN "success reported although the call fails" ELSE IF r.changed # <<>> THEN "failure changed " \o ToString(Names(r)) ELSE ""
  ELSE IF r.exit # 0 THEN "exit code " \o ToString(r.exit) \o " for " \o o
  ELSE IF r.cmd = "lint" THEN IF r.changed # <<>> THEN "changed " \o ToString(Names(r)) ELSE IF r.printed # r.ref THEN "printed something else than " \o o ELSE ""
  ELSE IF Names(r) # {Output(r.cmd, s)} THEN "changed " \o ToString(Names(r)) \o " instead of " \o Output(r.cmd, s)
  ELSE IF r.changed[1].digest # r.ref THEN "wrote something else than " \o o
  ELSE ""
Next == LET r == Traces[t] IN
  /\ l <= Len(r.args) /\ l' = l + 1 /\ t' = t
  /\ IF l < Len(r.args) THEN s' = Read(r.cmd, s, r.args[l + 1])
     ELSE /\ s' = s
          /\ LET bad == Judge(r) IN PrintT(IF bad = "" THEN <<"VERDICT", r.id, "ACCEPT">> ELSE <<"VERDICT", r.id, "REJECT", bad>>)
Spec == Init /\ [][Next]_<<t, l, s>>
=============================================================================
