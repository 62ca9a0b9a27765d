------------------------------ MODULE FilesTrace ----------------------------
(* Records of kind "type" tell how a file was loaded and what was drawn by a
   sequence of calls; records of kind "job" tell the project made of a job.  *)
EXTENDS Files, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, map, bad
vars == <<t, l, map, bad>>
Init == t \in 1..Len(Traces) /\ l = 0 /\ map = "default" /\ bad = ""
Verdict(r, m) == PrintT(IF m = "" THEN <<"VERDICT", r.id, "ACCEPT">> ELSE <<"VERDICT", r.id, "REJECT", m>>)
JudgeJob(r) ==
  IF r.err # "" THEN "failed: " \o r.err
  ELSE IF r.top # View(r.job, 0) THEN "top view: expected " \o ToString(View(r.job, 0))
  ELSE IF r.bottom # View(r.job, -1) THEN "bottom view: expected " \o ToString(View(r.job, -1))
  ELSE IF r.inner # Inner(r.job) THEN "inner views: expected " \o ToString(Inner(r.job)) ELSE ""
Next ==
  LET r == Traces[t] IN
  /\ l <= Len(r.calls)
  /\ l' = l + 1 /\ t' = t
  /\ IF l < Len(r.calls)
     THEN LET e == r.calls[l + 1] IN
          IF e.op = "map" THEN map' = e.map /\ bad' = bad
          ELSE /\ map' = map
               /\ bad' = IF bad # "" THEN bad
                         ELSE IF e.op = "defaults" THEN IF \E i \in 1..Len(e.want) : e.want[i] = TypeOf(r.file) THEN "" ELSE "call " \o ToString(l + 1) \o ": default colour of " \o ToString(e.want) \o ", expected that of " \o TypeOf(r.file)
                         ELSE IF e.seen # Drawn(r.file, map, e) THEN "call " \o ToString(l + 1) \o ": expected " \o ToString(Drawn(r.file, map, e)) \o ", drawn " \o ToString(e.seen)
                         ELSE ""
     ELSE /\ UNCHANGED <<map, bad>>
          /\ Verdict(r, IF r.kind = "job" THEN JudgeJob(r) ELSE IF r.err # "" THEN "failed: " \o r.err ELSE bad)
Spec == Init /\ [][Next]_vars
=============================================================================
