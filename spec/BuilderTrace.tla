---------------------------- MODULE BuilderTrace ----------------------------
(* One record is one use of the real builder: the calls made, which of them
   were refused, and the commands read back from the code it produced.      *)
EXTENDS Builder, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, b, m, s, done
vars == <<t, l, b, m, s, done>>
Init == t \in 1..Len(Traces) /\ l = 0 /\ b = B0 /\ m = 0 /\ s = I0 /\ done = FALSE
End(r) ==
  IF s.bad # "" THEN "written code: " \o s.bad
  ELSE IF ~s.over THEN "written code has no end"
  ELSE IF Len(s.objs) # Len(b.objs) THEN "number of objects"
  ELSE IF ~r.raw THEN "tree and text differ"
  ELSE IF ~r.repeat THEN "asking for the code again gives different code"
  ELSE IF ~r.partial THEN "asking for the code in between changed it"
  ELSE IF ~r.compiles THEN "written code does not compile"
  ELSE LET bad == {q \in 1..Len(b.objs) : SameObj(b.objs[q], b.pads, s.objs[q]) # ""}
       IN IF bad = {} THEN "" ELSE LET q == CHOOSE x \in bad : \A y \in bad : x <= y
                                   IN ToString(q) \o ": " \o SameObj(b.objs[q], b.pads, s.objs[q])
Verdict(r, bad) == PrintT(IF bad = "" THEN <<"VERDICT", r.id, "ACCEPT">> ELSE <<"VERDICT", r.id, "REJECT", bad>>)
Next ==
  /\ ~done
  /\ LET r == Traces[t]
     IN IF r.err # "" THEN done' = TRUE /\ UNCHANGED <<t, l, b, m, s>> /\ Verdict(r, r.err)
        ELSE IF l < Len(r.calls)
        THEN LET c == r.calls[l + 1]
             IN IF c.raised = (c.op = "refused")
                THEN l' = l + 1 /\ b' = Do(b, c) /\ UNCHANGED <<t, m, s, done>>
                ELSE done' = TRUE /\ UNCHANGED <<t, l, b, m, s>> /\ Verdict(r, IF c.raised THEN "call was refused" ELSE "call was not refused")
        ELSE IF m < Len(r.out)
        THEN m' = m + 1 /\ s' = Run(s, r.out[m + 1]) /\ UNCHANGED <<t, l, b, done>>
        ELSE done' = TRUE /\ UNCHANGED <<t, l, b, m, s>> /\ Verdict(r, End(r))
Spec == Init /\ [][Next]_vars
=============================================================================
