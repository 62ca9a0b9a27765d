------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* The Gerber builder: calls that create pads and add flashes, traces and  *)
(* regions, the image objects they stand for, and an interpreter of Gerber *)
(* commands that turns written code back into image objects.  Lengths on   *)
(* the image are integers (millionths of a millimetre), sizes and angles   *)
(* are fields of Syntax.                                                   *)
(***************************************************************************)
EXTENDS Syntax, FiniteSets

NoField == [t |-> "-", s |-> "", n |-> 0, d |-> 0, w |-> 0, e |-> <<>>]
NumField(n, d) == [NoField EXCEPT !.t = "n", !.n = n, !.d = d]
V(f) == <<f.t, f.s, f.n, f.d>>
Vs(fs) == [q \in 1..Len(fs) |-> V(fs[q])]
One == V(NumField(1, 0))
Zero == V(NumField(0, 0))
\* partial functions as sets of pairs
PutKey(m, k, v) == {p \in m : p[1] # k} \cup {<<k, v>>}
Has(m, k) == \E p \in m : p[1] = k
Get(m, k) == (CHOOSE p \in m : p[1] = k)[2]

-----------------------------------------------------------------------------
\* Meaning of calls: state [pads, draws, objs]
B0 == [pads |-> <<>>, draws |-> <<>>, objs |-> <<>>]
\* a location is given directly or as an earlier draw; a trace ends where it ends
\* when something begins there and begins where it begins when something ends there
AsBegin(s, r) == IF r.r = 0 THEN <<r.x, r.y>> ELSE s.draws[r.r][2]
AsEnd(s, r) == IF r.r = 0 THEN <<r.x, r.y>> ELSE s.draws[r.r][1]
Stroke(w) == [k |-> "ADC", j |-> 0, f |-> <<NoField, w, NoField>>]
Flash(s, c) == LET p == AsBegin(s, c.at)
               IN [t |-> "F", pad |-> c.pad, pol |-> c.pol, rot |-> V(c.rot), mir |-> c.mir, sc |-> V(c.sc), x |-> p[1], y |-> p[2]]
Track(c, b, e) == [t |-> "T", w |-> c.w, m |-> c.m, x |-> b[1], y |-> b[2], x1 |-> e[1], y1 |-> e[2],
                   cx |-> IF c.m = "G01" THEN 0 ELSE c.c[1], cy |-> IF c.m = "G01" THEN 0 ELSE c.c[2]]
Seg(m, b, e, c) == IF m = "G01" THEN <<m, b[1], b[2], e[1], e[2], 0, 0>> ELSE <<m, b[1], b[2], e[1], e[2], c[1], c[2]>>
RECURSIVE Contour(_, _)
Contour(b, segs) == IF segs = <<>> THEN <<>>
                    ELSE <<Seg(segs[1].m, b, segs[1].e, segs[1].c)>> \o Contour(segs[1].e, SubSeq(segs, 2, Len(segs)))
Closed(c) == LET cs == Contour(c.b, c.segs)
                 last == c.segs[Len(c.segs)].e
             IN IF last = c.b THEN cs ELSE Append(cs, Seg("G01", last, c.b, c.b))
Do(s, c) ==
  CASE c.op = "shape" -> [s EXCEPT !.pads = Append(@, [cmd |-> c.cmd, prims |-> c.prims, attrs |-> {}])]
    [] c.op = "attr" -> [s EXCEPT !.pads[c.pad].attrs = PutKey(@, c.name, Vs(c.f))]
    [] c.op = "flash" -> LET o == Flash(s, c) IN [s EXCEPT !.objs = Append(@, o), !.draws = Append(@, <<<<o.x, o.y>>, <<o.x, o.y>>>>)]
    [] c.op = "track" -> LET b == AsBegin(s, c.b)  e == AsEnd(s, c.e)
                         IN [s EXCEPT !.objs = Append(@, Track(c, b, e)), !.draws = Append(@, <<b, e>>)]
    [] c.op = "region" -> [s EXCEPT !.objs = Append(@, [t |-> "R", segs |-> Closed(c)])]
    [] c.op = "refused" -> s

-----------------------------------------------------------------------------
\* Interpreter of written code.  A command here also has c, the coordinates
\* <<present, value>> of X, Y, I and J.
I0 == [ap |-> "", pol |-> "D", rot |-> Zero, mir |-> "N", sc |-> One, mode |-> "", quad |-> "", x |-> 0, y |-> 0, placed |-> FALSE,
       reg |-> FALSE, segs |-> <<>>, start |-> <<0, 0>>, attrs |-> {}, aps |-> {}, macros |-> {}, body |-> <<>>, name |-> "",
       inmac |-> FALSE, fmt |-> FALSE, unit |-> FALSE, objs |-> <<>>, over |-> FALSE, bad |-> ""]
AdKinds == {"ADC", "ADR", "ADO", "ADP", "ADM"}
PrimKinds == {"P0", "P1", "P2", "P4", "P5", "P6", "P7", "P20", "P21", "P22", "Pset"}
XOf(s, c) == IF c.c[1][1] = 1 THEN c.c[1][2] ELSE s.x
YOf(s, c) == IF c.c[2][1] = 1 THEN c.c[2][2] ELSE s.y
IOf(c) == IF c.c[3][1] = 1 THEN c.c[3][2] ELSE 0
JOf(c) == IF c.c[4][1] = 1 THEN c.c[4][2] ELSE 0
Fail(s, why) == [s EXCEPT !.bad = why]
Move(s, c) == [s EXCEPT !.x = XOf(s, c), !.y = YOf(s, c), !.placed = TRUE]
DrawTo(s, c) ==
  LET arc == s.mode \in {"G02", "G03"}
      cx == IF arc THEN s.x + IOf(c) ELSE 0
      cy == IF arc THEN s.y + JOf(c) ELSE 0
      n == Move(s, c)
  IN IF s.mode = "" THEN Fail(s, "draw without interpolation mode")
     ELSE IF arc /\ s.quad # "G75" THEN Fail(s, "arc without quadrant mode")
     ELSE IF ~s.placed THEN Fail(s, "draw without current point")
     ELSE IF s.reg THEN [n EXCEPT !.segs = Append(@, <<s.mode, s.x, s.y, n.x, n.y, cx, cy>>)]
     ELSE IF ~Has(s.aps, s.ap) THEN Fail(s, "draw without aperture")
     ELSE [n EXCEPT !.objs = Append(@, [t |-> "T", ap |-> Get(s.aps, s.ap), pol |-> s.pol, sc |-> s.sc, m |-> s.mode, x |-> s.x,
                                        y |-> s.y, x1 |-> n.x, y1 |-> n.y, cx |-> cx, cy |-> cy])]
FlashAt(s, c) ==
  LET n == Move(s, c)
  IN IF s.reg \/ ~Has(s.aps, s.ap) THEN Fail(s, "flash without aperture")
     ELSE [n EXCEPT !.objs = Append(@, [t |-> "F", ap |-> Get(s.aps, s.ap), pol |-> s.pol, rot |-> s.rot, mir |-> s.mir, sc |-> s.sc,
                                        x |-> n.x, y |-> n.y])]
Run(s, c) ==
  IF s.bad # "" THEN s
  ELSE IF s.over THEN Fail(s, "command after the end")
  ELSE IF c.k \notin {"FS", "MO", "G04"} /\ ~(s.fmt /\ s.unit) THEN Fail(s, "no format or unit")
  ELSE
  CASE c.k = "G04" -> s
    [] c.k = "FS" -> [s EXCEPT !.fmt = TRUE]
    [] c.k = "MO" -> IF c.f[1].s = "MM" THEN [s EXCEPT !.unit = TRUE] ELSE Fail(s, "unit")
    [] c.k = "AMo" -> [s EXCEPT !.inmac = TRUE, !.name = c.f[1].s, !.body = <<>>]
    [] c.k \in PrimKinds -> [s EXCEPT !.body = Append(@, [k |-> c.k, j |-> c.j, f |-> c.f])]
    [] c.k = "AMc" -> [s EXCEPT !.inmac = FALSE, !.macros = PutKey(@, s.name, s.body)]
    [] c.k = "TA" -> [s EXCEPT !.attrs = PutKey(@, c.f[1].s, Vs(SubSeq(c.f, 2, Len(c.f))))]
    [] c.k = "TD" -> IF Len(c.f) > 0 /\ ~Absent(c.f[1]) THEN [s EXCEPT !.attrs = {p \in @ : p[1] # c.f[1].s}] ELSE [s EXCEPT !.attrs = {}]
    [] c.k \in AdKinds ->
         IF Has(s.aps, c.f[1].s) THEN Fail(s, "aperture defined twice")
         ELSE IF c.k = "ADM" /\ ~Has(s.macros, c.f[2].s) THEN Fail(s, "undefined macro")
         ELSE [s EXCEPT !.aps = PutKey(@, c.f[1].s, [cmd |-> [k |-> c.k, j |-> 0, f |-> c.f], attrs |-> s.attrs,
                                                     prims |-> IF c.k = "ADM" THEN Get(s.macros, c.f[2].s) ELSE <<>>])]
    [] c.k = "Dnn" -> [s EXCEPT !.ap = c.f[1].s]
    [] c.k \in {"G01", "G02", "G03"} -> [s EXCEPT !.mode = c.k]
    [] c.k \in {"G74", "G75"} -> [s EXCEPT !.quad = c.k]
    [] c.k = "LP" -> [s EXCEPT !.pol = c.f[1].s]
    [] c.k = "LM" -> [s EXCEPT !.mir = c.f[1].s]
    [] c.k = "LR" -> [s EXCEPT !.rot = V(c.f[1])]
    [] c.k = "LS" -> [s EXCEPT !.sc = V(c.f[1])]
    [] c.k = "G36" -> [s EXCEPT !.reg = TRUE, !.segs = <<>>]
    [] c.k = "G37" -> IF s.segs = <<>> THEN Fail(s, "empty region")
                      ELSE [s EXCEPT !.reg = FALSE, !.segs = <<>>, !.objs = Append(@, [t |-> "R", pol |-> s.pol, segs |-> s.segs])]
    [] c.k = "D02" -> IF s.reg /\ s.segs # <<>> THEN Fail(s, "second contour") ELSE Move(s, c)
    [] c.k = "D01" -> DrawTo(s, c)
    [] c.k = "D03" -> FlashAt(s, c)
    [] c.k = "M02" -> [s EXCEPT !.over = TRUE]
    [] OTHER -> Fail(s, "unexpected " \o c.k)

-----------------------------------------------------------------------------
\* apertures are the same up to their names
SameShape(a, b) ==
  IF a.k = "ADM" \/ b.k = "ADM" THEN a.k = b.k
  ELSE CmdSame([a EXCEPT !.f[1] = NoField], [b EXCEPT !.f[1] = NoField], -1)
SamePrims(a, b) == Len(a) = Len(b) /\ \A q \in 1..Len(a) : CmdSame(a[q], b[q], -1)
SameObj(want, pads, got) ==
  IF want.t # got.t THEN "kind of object"
  ELSE IF want.t = "F"
  THEN LET p == pads[want.pad]
       IN IF ~SameShape(p.cmd, got.ap.cmd) \/ ~SamePrims(p.prims, got.ap.prims) THEN "pad shape"
          ELSE IF p.attrs # got.ap.attrs THEN "pad attributes"
          ELSE IF want.pol # got.pol THEN "polarity"
          ELSE IF want.rot # got.rot \/ want.mir # got.mir \/ want.sc # got.sc THEN "transformation"
          ELSE IF want.x # got.x \/ want.y # got.y THEN "location"
          ELSE ""
  ELSE IF want.t = "T"
  THEN IF ~SameShape(Stroke(want.w), got.ap.cmd) \/ got.sc # One THEN "trace width"
       ELSE IF got.pol # "D" THEN "polarity"
       ELSE IF want.m # got.m THEN "interpolation"
       ELSE IF <<want.x, want.y, want.x1, want.y1>> # <<got.x, got.y, got.x1, got.y1>> THEN "end points"
       ELSE IF <<want.cx, want.cy>> # <<got.cx, got.cy>> THEN "arc center"
       ELSE ""
  ELSE IF got.pol # "D" THEN "polarity" ELSE IF want.segs # got.segs THEN "outline" ELSE ""
=============================================================================
