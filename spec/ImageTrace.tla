----------------------------- MODULE ImageTrace -----------------------------
(* Trace validation: executes recorded Gerber programs on the state machine
   one command per step and compares the resulting image with what the real
   pipeline painted at the recorded sample points. *)
EXTENDS GerberImage, Json, TLC

CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, l, st
vars == <<t, l, st>>

Init == t \in 1..Len(Traces) /\ l = 0 /\ st = Init0

\* sample: <<x, y, observed>> ; back-end margin is in the record
Bad(r, objs) == { i \in 1..Len(r.samples) :
                    LET e == Image(objs, <<r.samples[i][1], r.samples[i][2]>>, r.margin)
                    IN e # 2 /\ e # r.samples[i][3] }
Decided(r, objs) == Cardinality({ i \in 1..Len(r.samples) :
                    Image(objs, <<r.samples[i][1], r.samples[i][2]>>, r.margin) # 2 })

Verdict(r, objs) ==
  IF r.err # "" THEN PrintT(<<"VERDICT", r.id, "REJECT", "exception", r.err>>)
  ELSE LET b == Bad(r, objs) IN
    IF b = {} THEN PrintT(<<"VERDICT", r.id, "ACCEPT", Len(r.samples), Len(objs)>>)
    ELSE LET i == CHOOSE i \in b : TRUE IN
      PrintT(<<"VERDICT", r.id, "REJECT", "pixel", Cardinality(b), r.samples[i]>>)

Next ==
  /\ l < Len(Traces[t].cmds)
  /\ l' = l + 1
  /\ st' = Step(st, Traces[t].cmds[l'])
  /\ t' = t
  /\ (l' = Len(Traces[t].cmds)) => Verdict(Traces[t], st'.objs)

Spec == Init /\ [][Next]_vars
=============================================================================
