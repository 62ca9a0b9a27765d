------------------------------ MODULE RvmcTrace -----------------------------
(* One record is one use of the real builder: calls and whether they were
   refused, the commands read from the JSON form of the program, and the
   points painted by the vector machine (builder histories), or a compiled
   program with no calls (its JSON form must denote what is painted).       *)
EXTENDS RvmcBuild, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, w, k, s, done
vars == <<t, l, w, k, s, done>>
Init == t \in 1..Len(Traces) /\ l = 0 /\ w = W0 /\ k = 0 /\ s = S0 /\ done = FALSE
Differ(a, b) == a # EDGE /\ b # EDGE /\ a # b
P(r, i) == <<r.samples[i][1], r.samples[i][2]>>
End(r, z) ==
  LET x == Shown(w)  built == Len(r.calls) > 0
      worse == {i \in 1..Len(r.samples) : built /\ Differ(ImageAt(x, P(r, i), r.margin, TRUE), ImageAt(z, P(r, i), r.margin, TRUE))}
      off == {i \in 1..Len(r.samples) :
                LET a == ImageAt(z, P(r, i), r.margin, TRUE) b == ImageAt(z, P(r, i), r.margin, FALSE)
                IN a = b /\ Differ(a, r.samples[i][3])}
  IN IF z.err = "unspecified" THEN ""
     ELSE IF z.err # "" THEN "written program: " \o z.err
     ELSE IF r.verr # "" THEN "program does not run: " \o r.verr
     ELSE IF built /\ HasImage(x) # HasImage(z) THEN "presence of an image"
     ELSE IF worse # {} THEN "written program differs from calls at " \o ToString(P(r, CHOOSE i \in worse : TRUE))
     ELSE IF off # {} THEN "painted image differs from written program at " \o ToString(P(r, CHOOSE i \in off : TRUE))
     ELSE IF ~r.same THEN "written form is not stable"
     ELSE ""
Verdict(r, bad) == PrintT(IF bad = "" THEN <<"VERDICT", r.id, "ACCEPT">> ELSE <<"VERDICT", r.id, "REJECT", bad>>)
Next ==
  /\ ~done /\ t' = t
  /\ LET r == Traces[t]
     IN IF r.err # "" THEN done' = TRUE /\ UNCHANGED <<l, w, k, s>> /\ Verdict(r, r.err)
        ELSE IF l < Len(r.calls)
        THEN LET c == r.calls[l + 1]
             IN IF c.raised = Refused(w, c)
                THEN l' = l + 1 /\ w' = Call(w, c) /\ UNCHANGED <<k, s, done>>
                ELSE done' = TRUE /\ UNCHANGED <<l, w, k, s>> /\ Verdict(r, c.op \o (IF c.raised THEN " was refused" ELSE " was not refused"))
        ELSE IF k < Len(r.out) THEN k' = k + 1 /\ s' = Step(s, r.out[k + 1], FALSE) /\ UNCHANGED <<l, w, done>>
        ELSE done' = TRUE /\ UNCHANGED <<l, w, k, s>> /\ Verdict(r, End(r, Finish(s, FALSE)))
Spec == Init /\ [][Next]_vars
=============================================================================
