------------------------------ MODULE ReuseTrace -----------------------------
(* One record is a history over several objects: every event names an object
   (or several), what was done and the digest of what came back; `ref` gives for
   every key the digest a new object in a new process gave. *)
EXTENDS Reuse, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, os, bad
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
        /\ os = [i \in 1..Len(Traces[t].objects) |-> New(Traces[t].objects[i].doc, Traces[t].objects[i].req)]
Observed(e) == e.op \notin {"parser", "compiler", "map", "scribble"}
KeyOf(e) == IF e.op = "composite" THEN Keys([i \in 1..Len(e.os) |-> os[e.os[i]]], e) ELSE Key(os[e.os[1]], e)
Ref(r, k) == LET q == {i \in 1..Len(r.ref) : r.ref[i].k = k} IN IF q = {} THEN "no reference" ELSE r.ref[CHOOSE i \in q : TRUE].d
Next ==
  LET r == Traces[t] IN
  /\ l <= Len(r.events) /\ l' = l + 1 /\ t' = t
  /\ IF l < Len(r.events)
     THEN LET e == r.events[l + 1] IN
          /\ os' = IF Observed(e) \/ e.op = "scribble" THEN os
                   ELSE [i \in DOMAIN os |-> IF \E q \in 1..Len(e.os) : e.os[q] = i THEN Set(os[i], e) ELSE os[i]]
          /\ bad' = IF bad = "" /\ Observed(e) /\ e.d # Ref(r, KeyOf(e))
                    THEN "event " \o ToString(l + 1) \o " " \o e.op \o ": " \o e.d \o " instead of " \o Ref(r, KeyOf(e)) \o " for " \o KeyOf(e)
                    ELSE bad
     ELSE /\ UNCHANGED <<os, bad>>
          /\ LET b == IF r.err # "" THEN r.err ELSE bad
             IN PrintT(IF b = "" THEN <<"VERDICT", r.id, "ACCEPT">> ELSE <<"VERDICT", r.id, "REJECT", b>>)
Spec == Init /\ [][Next]_<<t, l, os, bad>>
=============================================================================
