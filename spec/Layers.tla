------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* The rendering virtual machine: a stack of image layers into which       *)
(* shapes and finished layers are painted.  `Step(s, c, fail)' is the      *)
(* state after command c, `Dark(objs, p, m, clip)' says whether painted    *)
(* objects leave point p dark.  Lengths are thousandths of a millimetre.   *)
(***************************************************************************)
EXTENDS Geometry

Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Last(q) == q[Len(q)]
Front1(q) == SubSeq(q, 1, Len(q) - 1)

\* ---------------------------------------------------------------- shapes --
\* outline segments need not touch, they are joined by straight lines
RECURSIVE Joined(_)
Joined(segs) ==
  IF Len(segs) < 2 THEN segs
  ELSE <<segs[1]>> \o (IF segs[1][3] = segs[2][2] THEN <<>> ELSE << <<"L", segs[1][3], segs[2][2]>> >>) \o Joined(Tail(segs))

\* arc of radius r about c from a to b, thickness t, cut straight at its ends
InFlatArc(p, a, b, c, cw, t, m) ==
  LET v == Sub2(p, c) r == Dist(a[1] - c[1], a[2] - c[2])
      ring == Within(2 * Abs(Dist(v[1], v[2]) - r), t, m)
      in == InSector(v, Sub2(a, c), Sub2(b, c), cw)
      out(q) == LET d == Sub2(q, c) IN <<c[1] + 2 * d[1], c[2] + 2 * d[2]>>
      near == SegDist(p, c, out(a)) <= m \/ SegDist(p, c, out(b)) <= m
  IN IF ring = OUT THEN OUT ELSE IF near THEN EDGE ELSE IF in THEN ring ELSE OUT

ShapeCover(o, p, m) ==
  LET v == o.p IN
  CASE o.t = "rect" -> InRect(p, <<v[1], v[2]>>, v[3], v[4], m)
    [] o.t = "circ" -> InCircle(p, <<v[1], v[2]>>, v[3], m)
    [] o.t = "obr"  -> InObround(p, <<v[1], v[2]>>, v[3], v[4], m)
    [] o.t = "poly" -> InPoly(p, RegularPoly(<<v[1], v[2]>>, v[3], v[4], v[5]), m)
    [] o.t = "line" -> InBar(p, <<v[1], v[2]>>, <<v[3], v[4]>>, v[5], m)
    [] o.t = "arc"  -> InFlatArc(p, <<v[1], v[2]>>, <<v[3], v[4]>>, <<v[5], v[6]>>, v[8] = 1, v[7], m)
    [] o.t = "ring" -> And3(InCircle(p, <<v[1], v[2]>>, v[3], m), Not3(InCircle(p, <<v[1], v[2]>>, v[4], m)))
    [] o.t = "pts"  -> InPoly(p, [i \in 1..(Len(v) \div 2) |-> <<v[2 * i - 1], v[2 * i]>>], m)
    [] o.t = "plus" -> Or3(InRect(p, <<v[1], v[2]>>, v[3], v[5], m), InRect(p, <<v[1], v[2]>>, v[5], v[4], m))
    [] o.t = "x"    -> LET h == v[3] \div 2 IN
                       Or3(InBar(p, <<v[1] - h, v[2] - h>>, <<v[1] + h, v[2] + h>>, v[4], m),
                           InBar(p, <<v[1] - h, v[2] + h>>, <<v[1] + h, v[2] - h>>, v[4], m))
    [] o.t = "segs" -> InContour(p, Joined(o.segs), m)

\* ----------------------------------------------------------------- boxes --
\* <<x1, y1, x2, y2>>
RECURSIVE Span(_)
Span(ps) == IF Len(ps) = 1 THEN <<ps[1][1], ps[1][2], ps[1][1], ps[1][2]>>
            ELSE LET b == Span(Tail(ps)) p == ps[1]
                 IN <<Min(b[1], p[1]), Min(b[2], p[2]), Max(b[3], p[1]), Max(b[4], p[2])>>
Join(a, b) == IF a = <<>> THEN b ELSE <<Min(a[1], b[1]), Min(a[2], b[2]), Max(a[3], b[3]), Max(a[4], b[4])>>
Shift(b, d) == <<b[1] + d[1], b[2] + d[2], b[3] + d[1], b[4] + d[2]>>
Around(x, y, w, h) == <<x - w \div 2, y - h \div 2, x + w \div 2, y + h \div 2>>
BarSpan(a, b, t) ==
  LET d == Sub2(b, a) L == ISqrt(Dot(d, d)) px == RDiv(-d[2] * (t \div 2), L) py == RDiv(d[1] * (t \div 2), L)
  IN Span(<< <<a[1] + px, a[2] + py>>, <<a[1] - px, a[2] - py>>, <<b[1] + px, b[2] + py>>, <<b[1] - px, b[2] - py>> >>)
\* points on the circle of radius r about c that the arc passes
Extremes(a, b, c, cw, r) ==
  LET dirs == << <<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>> >>
      ok == SelectSeq(dirs, LAMBDA d : a = b \/ InSector(d, Sub2(a, c), Sub2(b, c), cw))
  IN [i \in 1..Len(ok) |-> <<c[1] + r * ok[i][1], c[2] + r * ok[i][2]>>]
Along(c, q, r) == LET d == Sub2(q, c) L == ISqrt(Dot(d, d)) IN <<c[1] + RDiv(d[1] * r, L), c[2] + RDiv(d[2] * r, L)>>
ArcSpan(v) ==
  LET a == <<v[1], v[2]>> b == <<v[3], v[4]>> c == <<v[5], v[6]>> r == Dist(a[1] - c[1], a[2] - c[2]) h == v[7] \div 2
  IN Span(<<Along(c, a, r + h), Along(c, b, r + h), Along(c, a, r - h), Along(c, b, r - h)>> \o Extremes(a, b, c, v[8] = 1, r + h))
SegSpan(s) ==
  IF s[1] = "L" THEN Span(<<s[2], s[3]>>)
  ELSE Span(<<s[2], s[3]>> \o Extremes(s[2], s[3], s[4], s[5], Dist(s[2][1] - s[4][1], s[2][2] - s[4][2])))
RECURSIVE SegsSpan(_)
SegsSpan(q) == IF Len(q) = 1 THEN SegSpan(q[1]) ELSE Join(SegSpan(q[1]), SegsSpan(Tail(q)))
Centers(q) == LET arcs == SelectSeq(q, LAMBDA s : s[1] = "A") IN [i \in 1..Len(arcs) |-> arcs[i][4]]
ShapeBox(o) ==
  LET v == o.p IN
  CASE o.t = "rect" -> Around(v[1], v[2], v[3], v[4])
    [] o.t = "circ" -> Around(v[1], v[2], v[3], v[3])
    [] o.t = "obr"  -> Around(v[1], v[2], v[3], v[4])
    [] o.t = "poly" -> Span(RegularPoly(<<v[1], v[2]>>, v[3], v[4], v[5]))
    [] o.t = "line" -> BarSpan(<<v[1], v[2]>>, <<v[3], v[4]>>, v[5])
    [] o.t = "arc"  -> ArcSpan(v)
    [] o.t = "ring" -> Around(v[1], v[2], v[3], v[3])
    [] o.t = "pts"  -> Span([i \in 1..(Len(v) \div 2) |-> <<v[2 * i - 1], v[2 * i]>>])
    [] o.t = "plus" -> Join(Around(v[1], v[2], v[3], v[5]), Around(v[1], v[2], v[5], v[4]))
    [] o.t = "x"    -> LET h == v[3] \div 2 IN Join(BarSpan(<<v[1] - h, v[2] - h>>, <<v[1] + h, v[2] + h>>, v[4]),
                                                    BarSpan(<<v[1] - h, v[2] + h>>, <<v[1] + h, v[2] - h>>, v[4]))
    [] o.t = "segs" -> SegsSpan(o.segs)
\* the box may also take in the centers of arcs
ShapeRoom(o) ==
  IF o.t = "arc" THEN Join(ShapeBox(o), <<o.p[5], o.p[6], o.p[5], o.p[6]>>)
  ELSE IF o.t = "segs" /\ Centers(o.segs) # <<>> THEN Join(ShapeBox(o), Span(Centers(o.segs)))
  ELSE ShapeBox(o)
RECURSIVE BoxOf(_, _)
BoxOf(objs, acc) ==
  IF objs = <<>> THEN acc
  ELSE LET o == objs[1] IN BoxOf(Tail(objs), Join(acc, IF o.k = "s" THEN o.bb ELSE Shift(o.box, o.d)))
\* an object as it is kept: with the box it cannot reach beyond (for speed)
Kept(o) == [k |-> "s", t |-> o.t, p |-> o.p, segs |-> o.segs, neg |-> o.neg, bb |-> ShapeBox(o)]
RECURSIVE Reach(_, _)
Reach(objs, acc) ==
  IF objs = <<>> THEN acc
  ELSE LET o == objs[1] IN Reach(Tail(objs), IF o.bb = <<>> THEN acc ELSE Join(acc, IF o.k = "s" THEN o.bb ELSE Shift(o.bb, o.d)))
RECURSIVE RoomOf(_, _)
RoomOf(objs, acc) ==
  IF objs = <<>> THEN acc
  ELSE LET o == objs[1] IN RoomOf(Tail(objs), Join(acc, IF o.k = "s" THEN ShapeRoom(o) ELSE Shift(o.room, o.d)))
InBox(p, b, m) ==
  IF p[1] <= b[1] - m \/ p[1] >= b[3] + m \/ p[2] <= b[2] - m \/ p[2] >= b[4] + m THEN OUT
  ELSE IF p[1] >= b[1] + m /\ p[1] <= b[3] - m /\ p[2] >= b[2] + m /\ p[2] <= b[4] - m THEN INN
  ELSE EDGE

\* --------------------------------------------------------------- painting --
\* A pasted layer covers what is dark in it.  With clip nothing reaches
\* beyond the box of a layer of fixed size.
RECURSIVE Dark(_, _, _, _), Paint(_, _, _, _, _)
Cover(o, p, m, clip) ==
  IF o.k = "s" THEN (IF InBox(p, o.bb, m + 8) = OUT THEN OUT ELSE ShapeCover(o, p, m))
  ELSE LET q == Sub2(p, o.d)
           dark == IF o.bb = <<>> THEN OUT ELSE IF InBox(q, o.bb, m + 8) = OUT THEN OUT ELSE Dark(o.objs, q, m, clip)
       IN IF clip /\ o.fixed THEN And3(dark, InBox(q, o.box, m)) ELSE dark
Paint(objs, p, m, clip, acc) ==
  IF objs = <<>> THEN acc
  ELSE LET o == objs[1]
           c == Cover(o, p, m, clip)
           to == IF o.neg THEN OUT ELSE INN
           new == IF c = OUT THEN acc ELSE IF c = INN THEN to ELSE IF acc = to THEN acc ELSE EDGE
       IN Paint(Tail(objs), p, m, clip, new)
Dark(objs, p, m, clip) == Paint(objs, p, m, clip, OUT)

\* --------------------------------------------------------------- machine --
S0 == [lay |-> <<>>, stk |-> <<>>, err |-> ""]
Err(s, e) == [s EXCEPT !.err = e]
Top(s) == Last(s.stk)
Add(s, o) == [s EXCEPT !.lay[Top(s)].objs = Append(@, o)]
Pasted(l, c) == [k |-> "g", objs |-> l.objs, box |-> l.box, room |-> l.room, fixed |-> l.fixed,
                 d |-> <<c.at[1] - l.org[1], c.at[2] - l.org[2]>>, neg |-> c.neg, bad |-> "", id |-> c.id, bb |-> Reach(l.objs, <<>>)]
Broken(e, id) == [k |-> "g", objs |-> <<>>, box |-> <<>>, room |-> <<>>, fixed |-> FALSE, d |-> <<0, 0>>, neg |-> FALSE, bad |-> e, id |-> id, bb |-> <<>>]
PasteErr(s, c) ==
  IF c.id \notin DOMAIN s.lay THEN "LayerNotFoundError"
  ELSE IF s.lay[c.id].st = "open" THEN (IF s.lay[c.id].fixed THEN "unspecified" ELSE "PasteDeferredLayerNotAllowedError")
  ELSE ""
Paste(s, c) ==
  LET e == PasteErr(s, c) IN
  IF c.id \in DOMAIN s.lay /\ s.lay[c.id].st = "empty" THEN (IF s.stk = <<>> THEN Err(s, "unspecified") ELSE s)
  ELSE IF s.stk = <<>> THEN Err(s, IF e = "" THEN "NoLayerSetError" ELSE e)
  ELSE IF e = "" THEN Add(s, Pasted(s.lay[c.id], c))
  ELSE IF s.lay[Top(s)].fixed \/ e = "unspecified" THEN Err(s, e)
  ELSE Add(s, Broken(e, c.id))   \* found out when the size is determined
Ended(s, fail) ==
  LET id == Top(s) l == s.lay[id] n == [s EXCEPT !.stk = Front1(@)]
      bad == SelectSeq(l.objs, LAMBDA o : o.k = "g" /\ o.bad # "")
  IN IF l.fixed THEN [n EXCEPT !.lay[id].st = "done"]
     ELSE IF bad # <<>> THEN Err(n, bad[1].bad)
     ELSE IF l.objs = <<>> THEN (IF fail THEN Err(n, "EmptyAutoSizedLayerNotAllowedError") ELSE [n EXCEPT !.lay[id].st = "empty"])
     ELSE [n EXCEPT !.lay[id].st = "done", !.lay[id].box = BoxOf(l.objs, <<>>), !.lay[id].room = RoomOf(l.objs, <<>>)]
Waiting(s, id) == \E q \in DOMAIN s.lay : \E i \in 1..Len(s.lay[q].objs) :
                    s.lay[q].objs[i].k = "g" /\ s.lay[q].objs[i].bad = "LayerNotFoundError" /\ s.lay[q].objs[i].id = id /\ s.lay[q].st = "open"
Step(s, c, fail) ==
  IF s.err # "" THEN s ELSE
  CASE c.c = "start" -> IF c.id \in DOMAIN s.lay THEN Err(s, "LayerAlreadyExistsError")
                        ELSE IF Waiting(s, c.id) THEN Err(s, "unspecified")
                        ELSE [s EXCEPT !.lay = Put(@, c.id, [fixed |-> c.box # <<>>, box |-> c.box, room |-> c.box, org |-> c.org,
                                                             objs |-> <<>>, st |-> "open"]),
                                       !.stk = Append(@, c.id)]
    [] c.c = "end" -> IF s.stk = <<>> THEN Err(s, "NoLayerSetError") ELSE Ended(s, fail)
    [] c.c = "shape" -> IF s.stk = <<>> THEN Err(s, "NoLayerSetError") ELSE Add(s, Kept(c.o))
    [] c.c = "paste" -> Paste(s, c)

Main == "%main%"
Finish(s, fail) ==
  IF s.err # "" THEN s
  ELSE IF Main \notin DOMAIN s.lay THEN (IF fail THEN Err(s, "NoMainLayerError") ELSE s)
  ELSE IF s.lay[Main].st = "open" THEN Err(s, "unspecified")
  ELSE s
HasImage(s) == Main \in DOMAIN s.lay /\ s.lay[Main].st = "done"
ImageAt(s, p, m, clip) ==
  IF ~HasImage(s) THEN OUT
  ELSE LET l == s.lay[Main]
           d == Dark(l.objs, p, m, clip)
       IN IF clip THEN And3(d, InBox(p, l.box, m)) ELSE d
=============================================================================
