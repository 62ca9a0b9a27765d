----------------------------- MODULE RasterTrace ----------------------------
(* One record is one picture: the files it was made of, the resolution asked
   for, what the picture says about itself and sampled pixels.              *)
EXTENDS Raster, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l
vars == <<t, l>>
Init == t \in 1..Len(Traces) /\ l = 0

NearBox(a, b) == \A i \in 1..4 : Abs(a[i] - b[i]) <= 3
\* extents told by the picture: in file units, millimetres and pixels
SpaceOk(s, f, dpmm) ==
  LET b == Extents(f.rects) IN
  IF s.unit # f.unit THEN "unit"
  ELSE IF ~NearBox(s.box, b) THEN "extents in file units"
  ELSE IF ~NearBox(s.mm, b) THEN "extents in millimetres"
  ELSE IF Abs(s.size[1] - (b[3] - b[1])) > 3 \/ Abs(s.size[2] - (b[4] - b[2])) > 3 THEN "size in millimetres"
  ELSE IF Abs(2 * s.mid[1] - (b[3] + b[1])) > 6 \/ Abs(2 * s.mid[2] - (b[4] + b[2])) > 6 THEN "centre"
  ELSE IF s.dpmm # dpmm THEN "resolution"
  ELSE IF \E i \in 1..4 : Abs(s.px[i] * MM - b[i] * dpmm) > MM + dpmm * 3 THEN "extents in pixels"
  ELSE ""
Colours(r, a, b) == \A i \in 1..(IF r.rgb THEN 3 ELSE 4) : Abs(a[i] - b[i]) <= r.tol
Want(r, p) == IF r.kind = "single" THEN Colour(r.files[1], p, r.margin) ELSE Stacked(r.files, p, r.margin)
Raster(r) ==
  LET b == IF r.kind = "single" THEN Extents(r.files[1].rects) ELSE Hull(r.files)
      slack == IF r.kind = "single" THEN 1 ELSE 2
      bad == {i \in 1..Len(r.px) : LET q == r.px[i]  c == Want(r, At(b, <<q[1], q[2]>>, r.dpmm))
                                   IN c # <<>> /\ ~Colours(r, c, <<q[3], q[4], q[5], q[6]>>)}
  IN IF ~SizeOk(r.w, b[3] - b[1], r.dpmm, slack) \/ ~SizeOk(r.h, b[4] - b[2], r.dpmm, slack) THEN "size of the picture"
     ELSE IF bad # {} THEN "pixel " \o ToString(r.px[CHOOSE i \in bad : TRUE]) ELSE ""
\* vector pictures are measured in file units, scaled here to lengths: point <<u, v>> right and down of the corner
Vector(r) ==
  LET f == r.files[1]  b == Extents(f.rects)  vb == r.view
      bad == {i \in 1..Len(r.px) :
                LET q == r.px[i]  d == Dark(f.rects, <<vb[1] + q[1], vb[2] + vb[4] - q[2]>>, r.margin)
                IN d # EDGE /\ d # q[3]}
      dark == \E i \in 1..Len(r.px) : r.px[i][3] = 1
  IN IF r.empty THEN IF \A k \in 1..Len(f.rects) : LET c == f.rects[k]  p == <<(c[1] + c[3]) \div 2, (c[2] + c[4]) \div 2>> IN Dark(f.rects, p, r.margin) # INN
                     THEN "" ELSE "nothing is shown"
     ELSE IF vb[1] < b[1] - 3 \/ vb[2] < b[2] - 3 \/ vb[1] + vb[3] > b[3] + 3 \/ vb[2] + vb[4] > b[4] + 3 THEN "view exceeds the extents"
     ELSE IF Abs(r.w - vb[3]) > 3 \/ Abs(r.h - vb[4]) > 3 THEN "size of the picture"
     ELSE IF dark /\ r.ink # f.fg THEN "colour"
     ELSE IF bad # {} THEN "point " \o ToString(r.px[CHOOSE i \in bad : TRUE]) ELSE ""
RECURSIVE Spaces(_, _)
Spaces(r, i) ==
  IF i > Len(r.spaces) THEN ""
  ELSE LET m == SpaceOk(r.spaces[i], r.files[i], IF r.kind = "vector" THEN 0 ELSE r.dpmm) IN IF m # "" THEN "image space: " \o m ELSE Spaces(r, i + 1)
Judge(r) ==
  IF r.err # "" THEN "failed: " \o r.err
  ELSE LET s == Spaces(r, 1) IN IF s # "" THEN s ELSE IF r.kind = "vector" THEN Vector(r) ELSE Raster(r)
Verdict(r, bad) == PrintT(IF bad = "" THEN <<"VERDICT", r.id, "ACCEPT">> ELSE <<"VERDICT", r.id, "REJECT", bad>>)
Next == l = 0 /\ l' = 1 /\ t' = t /\ Verdict(Traces[t], Judge(Traces[t]))
Spec == Init /\ [][Next]_vars
=============================================================================
