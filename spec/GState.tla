------------------------------- MODULE GState -------------------------------
(***************************************************************************)
(* The Gerber graphics state: what every command does to the modal state,  *)
(* to the aperture and attribute dictionaries, and which graphical event   *)
(* it triggers.  Lengths are millionths of the file unit.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoEv == <<>>
Opt(o, dflt) == IF o = <<>> THEN dflt ELSE o[1]
Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Del(f, k) == [q \in DOMAIN f \ {k} |-> f[q]]
Empty == << >>
Merge(f, g) == [q \in DOMAIN f \cup DOMAIN g |-> IF q \in DOMAIN g THEN g[q] ELSE f[q]]

S0 == [ unit |-> "MM", fs |-> <<>>, plot |-> "L", quad |-> "SQ", ap |-> 0, x |-> 0, y |-> 0,
        pol |-> "D", mir |-> "N", rot |-> 0, scale |-> 1000, region |-> FALSE,
        aps |-> Empty, macros |-> {}, ta |-> Empty, tf |-> Empty, to |-> Empty, apattrs |-> Empty,
        img |-> [ip |-> "POS", ir |-> 0, mi |-> <<0, 0>>, of |-> <<0, 0>>, sf |-> <<0, 0>>, iname |-> "", lname |-> "", axis |-> "AXBY"],
        stop |-> FALSE, err |-> FALSE ]

\* the operation the current plot mode selects
DrawKind(s) == IF s.plot = "L" THEN "line" ELSE (IF s.plot = "CW" THEN "cw" ELSE "ccw") \o (IF s.quad = "SQ" THEN "_sq" ELSE "_mq")

Fail(s) == [s |-> [s EXCEPT !.err = TRUE, !.stop = TRUE], ev |-> NoEv]
Ok(s) == [s |-> s, ev |-> NoEv]
OkEv(s, ev) == [s |-> s, ev |-> ev]

HasCoord(c) == c.x # <<>> \/ c.y # <<>> \/ c.i # <<>> \/ c.j # <<>>
Moved(s, c) == [s EXCEPT !.x = Opt(c.x, s.x), !.y = Opt(c.y, s.y)]
Format(s, m) == IF s.fs = <<>> THEN [s EXCEPT !.fs = <<"L", m, 2, 6, 2, 6>>] ELSE [s EXCEPT !.fs[2] = m]

RECURSIVE Step(_, _), StepAll(_, _, _)
\* result: the new state and the sequence of graphical events
Step(s, c) ==
  IF s.stop THEN Ok(s) ELSE
  CASE c.c = "FS" -> Ok([s EXCEPT !.fs = <<c.z, c.m, c.xi, c.xd, c.yi, c.yd>>])
    [] c.c = "MO" -> Ok([s EXCEPT !.unit = c.v])
    [] c.c = "G70" -> Ok([s EXCEPT !.unit = "IN"])
    [] c.c = "G71" -> Ok([s EXCEPT !.unit = "MM"])
    [] c.c = "G74" -> Ok([s EXCEPT !.quad = "SQ"])
    [] c.c = "G75" -> Ok([s EXCEPT !.quad = "MQ"])
    [] c.c = "G01" -> Ok([s EXCEPT !.plot = "L"])
    [] c.c = "G02" -> Ok([s EXCEPT !.plot = "CW"])
    [] c.c = "G03" -> Ok([s EXCEPT !.plot = "CCW"])
    [] c.c = "G90" -> Ok(Format(s, "A"))
    [] c.c = "G91" -> Ok(Format(s, "I"))
    [] c.c = "G36" -> OkEv([s EXCEPT !.region = TRUE], << <<"start_region">> >>)
    [] c.c = "G37" -> OkEv([s EXCEPT !.region = FALSE], << <<"flush">>, <<"end_region">> >>)
    [] c.c = "LP" -> Ok([s EXCEPT !.pol = c.v])
    [] c.c = "LM" -> Ok([s EXCEPT !.mir = c.v])
    [] c.c = "LR" -> Ok([s EXCEPT !.rot = c.v])
    [] c.c = "LS" -> Ok([s EXCEPT !.scale = c.v])
    [] c.c = "AD" -> Ok([s EXCEPT !.aps = Put(@, c.id, c.t), !.apattrs = Put(@, c.id, s.ta)])
    [] c.c = "AM" -> Ok([s EXCEPT !.macros = @ \cup {c.name}])
    [] c.c = "Dnn" -> IF c.id \in DOMAIN s.aps THEN Ok([s EXCEPT !.ap = c.id]) ELSE Fail(s)
    [] c.c = "D01" -> IF HasCoord(c) /\ s.fs = <<>> THEN Fail(s)
                      ELSE OkEv(Moved(s, c), << <<IF s.region THEN "region_draw" ELSE "draw", DrawKind(s), <<s.x, s.y>>,
                                    <<Opt(c.x, s.x), Opt(c.y, s.y)>>, <<Opt(c.i, 0), Opt(c.j, 0)>>, s.pol>> >>)
    [] c.c = "D02" -> IF HasCoord(c) /\ s.fs = <<>> THEN Fail(s)
                      ELSE OkEv(Moved(s, c), IF s.region THEN << <<"flush">> >> ELSE NoEv)
    [] c.c = "D03" -> IF (HasCoord(c) /\ s.fs = <<>>) \/ s.ap = 0 THEN Fail(s)
                      ELSE OkEv(Moved(s, c), << <<"flash", s.aps[s.ap], s.ap, <<Opt(c.x, s.x), Opt(c.y, s.y)>>, s.pol>> >>)
    [] c.c = "AB"  -> LET r == StepAll(s, c.body, NoEv) IN
                      IF r.s.stop THEN r ELSE
                      OkEv([r.s EXCEPT !.aps = Put(@, c.id, "B"), !.apattrs = Put(@, c.id, r.s.ta)], r.ev)
    [] c.c = "SR"  -> StepAll(s, c.body, NoEv)
    [] c.c = "TF" -> Ok([s EXCEPT !.tf = Put(@, c.name, c.k)])
    [] c.c = "TA" -> Ok([s EXCEPT !.ta = Put(@, c.name, c.k)])
    [] c.c = "TO" -> Ok([s EXCEPT !.to = Put(@, c.name, c.k)])
    [] c.c = "TD" -> IF c.name = "" THEN Ok([s EXCEPT !.ta = Empty, !.to = Empty])
                     ELSE Ok([s EXCEPT !.ta = Del(@, c.name), !.to = Del(@, c.name)])
    [] c.c = "IP" -> Ok([s EXCEPT !.img.ip = c.v])
    [] c.c = "IR" -> Ok([s EXCEPT !.img.ir = c.v])
    [] c.c = "MI" -> Ok([s EXCEPT !.img.mi = c.v])
    [] c.c = "OF" -> Ok([s EXCEPT !.img.of = c.v])
    [] c.c = "SF" -> Ok([s EXCEPT !.img.sf = c.v])
    [] c.c = "IN" -> Ok([s EXCEPT !.img.iname = c.v])
    [] c.c = "LN" -> Ok([s EXCEPT !.img.lname = c.v])
    [] c.c = "AS" -> Ok([s EXCEPT !.img.axis = c.v])
    [] c.c \in {"M00", "M02"} -> Ok([s EXCEPT !.stop = TRUE])
    [] OTHER -> Ok(s)      \* comments and deprecated codes without effect
StepAll(s, cs, ev) ==
  IF cs = <<>> \/ s.stop THEN OkEv(s, ev)
  ELSE LET r == Step(s, Head(cs)) IN StepAll(r.s, Tail(cs), ev \o r.ev)

(***************************************************************************)
(* Graphical objects and the attributes attached to them.  An object is    *)
(* <<kind, object attributes, attributes of the flashed aperture>>.        *)
(* o = [s, buf, blocks, contour]: `buf' collects the objects of the layer  *)
(* being built, `blocks' the contents of defined block apertures.          *)
(***************************************************************************)
O0 == [s |-> S0, buf |-> <<>>, blocks |-> Empty, contour |-> 0]
RegionObj(o) == IF o.contour = 0 THEN <<>> ELSE << <<"shape", Merge(o.s.to, o.s.ta), Empty>> >>
RECURSIVE Objs(_, _), ObjsAll(_, _), Times(_, _)
Times(q, n) == IF n = 0 THEN <<>> ELSE q \o Times(q, n - 1)
Objs(o, c) ==
  IF o.s.stop THEN o ELSE
  LET s2 == Step(o.s, c).s
      n == [o EXCEPT !.s = s2]
  IN IF s2.err THEN n ELSE
  CASE c.c = "D01" -> IF o.s.region THEN [n EXCEPT !.contour = @ + 1]
                      ELSE [n EXCEPT !.buf = Append(@, <<"shape", o.s.to, Empty>>)]
    [] c.c = "D02" -> IF o.s.region THEN [n EXCEPT !.contour = 0, !.buf = @ \o RegionObj(o)] ELSE n
    [] c.c = "G36" -> [n EXCEPT !.contour = 0]
    [] c.c = "G37" -> [n EXCEPT !.contour = 0, !.buf = @ \o RegionObj(o)]
    [] c.c = "D03" -> IF o.s.aps[o.s.ap] = "B" THEN [n EXCEPT !.buf = @ \o o.blocks[o.s.ap]]
                      ELSE [n EXCEPT !.buf = Append(@, <<"flash", o.s.to, o.s.apattrs[o.s.ap]>>)]
    [] c.c = "AB" -> LET r == ObjsAll([o EXCEPT !.buf = <<>>], c.body)
                     IN [r EXCEPT !.buf = o.buf, !.blocks = Put(@, c.id, r.buf), !.s = s2]
    [] c.c = "SR" -> LET r == ObjsAll([o EXCEPT !.buf = <<>>], c.body)
                     IN [r EXCEPT !.buf = o.buf \o Times(r.buf, c.nx * c.ny), !.s = s2]
    [] OTHER -> n
ObjsAll(o, cs) == IF cs = <<>> \/ o.s.stop THEN o ELSE ObjsAll(Objs(o, Head(cs)), Tail(cs))

\* an operation may be realised by several equal shapes: compare without repetitions
RECURSIVE Destutter(_)
Destutter(q) == IF Len(q) < 2 THEN q
                ELSE LET d == Destutter(SubSeq(q, 1, Len(q) - 1)) IN IF d[Len(d)] = q[Len(q)] THEN d ELSE Append(d, q[Len(q)])
=============================================================================
