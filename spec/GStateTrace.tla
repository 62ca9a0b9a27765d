---------------------------- MODULE GStateTrace -----------------------------
(* One step per top-level command.  After every command the recorded
   snapshot of the real tracker must equal the specified state and the
   recorded graphical events must be the specified ones.                  *)
EXTENDS GState, Json

CONSTANTS TraceFile,
          Focus       \* "modal": graphics state and events, "attr": attribute dictionaries
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, l, st, verdict
vars == <<t, l, st, verdict>>

Init == t \in 1..Len(Traces) /\ l = 0 /\ st = S0 /\ verdict = ""

\* A dictionary is recorded as a set of <<key, value>> pairs
Pairs(f) == { <<k, f[k]>> : k \in DOMAIN f }
SetOf(q) == { q[k] : k \in 1..Len(q) }

\* name of the first state component that differs, "" if none
DiffModal(s, o) ==
  IF o.unit # s.unit THEN "unit" ELSE IF o.fs # s.fs THEN "coordinate format" ELSE IF o.plot # s.plot THEN "plot mode"
  ELSE IF o.quad # s.quad THEN "quadrant mode" ELSE IF o.ap # s.ap THEN "current aperture" ELSE IF o.pos # <<s.x, s.y>> THEN "current point"
  ELSE IF o.pol # s.pol THEN "polarity" ELSE IF o.mir # s.mir THEN "mirroring" ELSE IF o.rot # s.rot THEN "rotation"
  ELSE IF o.scale # s.scale THEN "scaling" ELSE IF o.region # s.region THEN "region mode"
  ELSE IF SetOf(o.aps) # Pairs(s.aps) THEN "aperture dictionary" ELSE IF SetOf(o.macros) # s.macros THEN "macro dictionary"
  ELSE IF o.img # s.img THEN "image attributes"
  ELSE ""
DiffAttr(s, o) ==
  IF SetOf(o.tf) # Pairs(s.tf) THEN "file attributes" ELSE IF SetOf(o.ta) # Pairs(s.ta) THEN "aperture attributes"
  ELSE IF SetOf(o.to) # Pairs(s.to) THEN "object attributes"
  ELSE IF { <<q[1], SetOf(q[2])>> : q \in SetOf(o.apattrs) } # { <<k, Pairs(s.apattrs[k])>> : k \in DOMAIN s.apattrs } THEN "attributes of apertures"
  ELSE ""
Diff(s, o) == IF Focus = "modal" THEN DiffModal(s, o) ELSE DiffAttr(s, o)

\* records: r.cmds[k], r.obs[k] = [err, ev, state]
Check(r, k, res) ==
  LET o == r.obs[k] IN
  IF res.s.err THEN (IF o.err = "" THEN "missing error" ELSE "")
  ELSE IF o.err # "" THEN "unexpected error " \o o.err
  ELSE IF Focus = "modal" /\ o.ev # res.ev THEN "events"
  ELSE Diff(res.s, o.state)

\* compiled program: objects with the attributes attached to them
ObjSeen(q) == [k \in 1..Len(q) |-> <<q[k][1], SetOf(q[k][2]), SetOf(q[k][3])>>]
ObjSpec(q) == [k \in 1..Len(q) |-> <<q[k][1], Pairs(q[k][2]), Pairs(q[k][3])>>]
CheckFinal(r, res) ==
  IF res.s.err THEN ""
  ELSE IF r.finalerr # "" THEN "unexpected error in whole run " \o r.finalerr
  ELSE IF Diff(res.s, r.finalstate) # "" THEN "whole run: " \o Diff(res.s, r.finalstate)
  ELSE IF ~r.compiled THEN ""
  ELSE IF r.comperr # "" THEN "compilation failed " \o r.comperr
  ELSE IF SetOf(r.filemeta) # Pairs(res.s.tf) THEN "file metadata"
  ELSE IF Destutter(ObjSeen(r.objects)) # Destutter(ObjSpec(ObjsAll(O0, r.cmds).buf)) THEN "object metadata"
  ELSE ""

Next ==
  /\ verdict = ""
  /\ l < Len(Traces[t].cmds)
  /\ l' = l + 1 /\ t' = t
  /\ LET r == Traces[t]
         res == Step(st, r.cmds[l'])
         bad == Check(r, l', res)
         last == res.s.err \/ l' = Len(r.cmds)
         bad2 == IF bad = "" /\ last THEN CheckFinal(r, res) ELSE bad
     IN /\ st' = res.s
        /\ verdict' = IF bad2 # "" THEN bad2 ELSE IF last THEN "ok" ELSE ""
        /\ IF bad2 # "" THEN PrintT(<<"VERDICT", r.id, "REJECT", bad2, l', ToString(r.cmds[l']), ToString(res.ev), ToString(r.obs[l'].ev)>>)
           ELSE IF last THEN PrintT(<<"VERDICT", r.id, "ACCEPT", l'>>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
