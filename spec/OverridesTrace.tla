---------------------------- MODULE OverridesTrace ----------------------------
(* One record is a history of parsers made and used; a use carries the document, the
   nodes found in the tree and whether the tree formats like the ordinary one. *)
EXTENDS Overrides, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, parsers, verdict
vars == <<t, l, parsers, verdict>>
Init == t \in 1..Len(Traces) /\ l = 0 /\ parsers = <<>> /\ verdict = ""
Judge(e) == IF e.err # "" THEN e.err ELSE
            LET bad == SeenBad(e.src, e.p, parsers[e.p], e.seen) IN IF bad # "" THEN bad ELSE IF ~e.same THEN "tree formats differently" ELSE ""
Next == LET r == Traces[t] IN
  /\ verdict = "" /\ l <= Len(r.events) /\ t' = t /\ l' = l + 1
  /\ IF l = Len(r.events) THEN UNCHANGED parsers /\ verdict' = "ACCEPT"
     ELSE LET e == r.events[l + 1] IN
          IF e.a = "new" THEN parsers' = Append(parsers, Set(e.over)) /\ verdict' = ""
          ELSE /\ UNCHANGED parsers
               /\ LET bad == Judge(e) IN verdict' = IF bad = "" THEN "" ELSE "event " \o ToString(l + 1) \o ": " \o bad
  /\ IF verdict' = "" THEN TRUE ELSE PrintT(IF verdict' = "ACCEPT" THEN <<"VERDICT", r.id, "ACCEPT">> ELSE <<"VERDICT", r.id, "REJECT", verdict'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
