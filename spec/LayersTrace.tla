----------------------------- MODULE LayersTrace ----------------------------
(* One record is one program run by a real virtual machine: its commands, the
   name of the exception (or none), the box and the observed sample points.  *)
EXTENDS Layers, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, s
vars == <<t, l, s>>
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = S0
Near(a, b) == Abs(a - b) <= 4
BoxOk(r, z) ==
  IF ~HasImage(z) THEN r.box = <<0, 0, 0, 0>>
  ELSE LET n == z.lay[Main].box  w == z.lay[Main].room
       IN /\ r.box[1] <= n[1] + 4 /\ r.box[1] >= w[1] - 4 /\ r.box[2] <= n[2] + 4 /\ r.box[2] >= w[2] - 4
          /\ r.box[3] >= n[3] - 4 /\ r.box[3] <= w[3] + 4 /\ r.box[4] >= n[4] - 4 /\ r.box[4] <= w[4] + 4
Want(r, z, p) ==
  LET c == ImageAt(z, p, r.margin, TRUE)
  IN IF r.raster THEN c ELSE LET u == ImageAt(z, p, r.margin, FALSE) IN IF u = c THEN c ELSE EDGE
Bad(r, z) == {i \in 1..Len(r.samples) : LET e == Want(r, z, <<r.samples[i][1], r.samples[i][2]>>) IN e # EDGE /\ e # r.samples[i][3]}
Judge(r, z) ==
  IF z.err = "unspecified" THEN ""
  ELSE IF z.err # r.err THEN "expected " \o (IF z.err = "" THEN "success" ELSE z.err) \o ", observed " \o (IF r.err = "" THEN "success" ELSE r.err)
  ELSE IF z.err # "" THEN ""
  ELSE IF ~BoxOk(r, z) THEN "box of the image"
  ELSE LET b == Bad(r, z) IN IF b = {} THEN "" ELSE "point " \o ToString(r.samples[CHOOSE i \in b : TRUE])
Verdict(r, bad) == PrintT(IF bad = "" THEN <<"VERDICT", r.id, "ACCEPT">> ELSE <<"VERDICT", r.id, "REJECT", bad>>)
Next ==
  /\ l <= Len(Traces[t].cmds)
  /\ l' = l + 1 /\ t' = t
  /\ IF l < Len(Traces[t].cmds) THEN s' = Step(s, Traces[t].cmds[l + 1], Traces[t].fail)
     ELSE s' = Finish(s, Traces[t].fail) /\ Verdict(Traces[t], Judge(Traces[t], s'))
Spec == Init /\ [][Next]_vars
=============================================================================
