----------------------------- MODULE GerberImage ----------------------------
(***************************************************************************)
(* Denotational image semantics of Gerber programs on top of an explicit   *)
(* state machine.  `Init0' is the state before the first command and       *)
(* `Step(s, c)' the state after command c.  The state carries the ordered  *)
(* list of graphical objects created so far; `Image(objs, p, m)' says      *)
(* whether the finished image is dark at point p.                          *)
(***************************************************************************)
EXTENDS Geometry, TLC

NONE == 0   \* effect of an object on a point: no effect
DARK == 1
CLEAR == 2
UNK == 3

\* --------------------------------------------------------------- macros --
\* All macro values are fixed point with three decimals (1.0 == 1000).
RECURSIVE Eval(_, _)
Eval(e, env) ==
  CASE e[1] = "k" -> e[2]
    [] e[1] = "v" -> IF e[2] \in DOMAIN env THEN env[e[2]] ELSE 0
    [] e[1] = "+" -> Eval(e[2], env) + Eval(e[3], env)
    [] e[1] = "-" -> Eval(e[2], env) - Eval(e[3], env)
    [] e[1] = "x" -> RDiv(Eval(e[2], env) * Eval(e[3], env), 1000)
    [] e[1] = "/" -> RDiv(Eval(e[2], env) * 1000, Eval(e[3], env))
    [] e[1] = "neg" -> -Eval(e[2], env)
    [] e[1] = "pos" -> Eval(e[2], env)
    [] e[1] = "paren" -> Eval(e[2], env)

\* Instantiate a macro body: a sequence of evaluated primitives
\* <<code, <<v1, v2, ...>>>>; assignments update the environment in order.
RECURSIVE Inst(_, _, _)
Inst(body, env, acc) ==
  IF body = <<>> THEN acc ELSE
  LET st == Head(body) IN
  IF st[1] = 0 THEN  \* assignment
    Inst(Tail(body), [k \in DOMAIN env \cup {st[2]} |-> IF k = st[2] THEN Eval(st[3], env) ELSE env[k]], acc)
  ELSE Inst(Tail(body), env, Append(acc, <<st[1], [i \in 1..Len(st[2]) |-> Eval(st[2][i], env)]>>))

Deg(v) == RDiv(v, 1000)

\* moire: rings then cross hair; a ring consumes 2*(thickness + gap)
RECURSIVE InRings(_, _, _, _, _, _, _)
InRings(p, c, od, th, gap, left, m) ==
  IF left = 0 \/ od <= 0 THEN OUT
  ELSE LET id == od - 2 * th
           ring == IF id <= 0 THEN InCircle(p, c, od, m)
                   ELSE And3(InCircle(p, c, od, m), Not3(InCircle(p, c, id, m)))
       IN Or3(ring, InRings(p, c, od - 2 * (th + gap), th, gap, left - 1, m))

\* coverage of one macro primitive; the primitive's rotation is about the
\* macro origin, so the sample point is rotated the other way.
PrimCover(pr, p0, m) ==
  LET k == pr[1] v == pr[2] IN
  CASE k = 1 -> LET p == Rot(p0, IF Len(v) >= 5 THEN -Deg(v[5]) ELSE 0) IN InCircle(p, <<v[3], v[4]>>, v[2], m)
    [] k \in {2, 20} -> LET p == Rot(p0, -Deg(v[7])) IN InBar(p, <<v[3], v[4]>>, <<v[5], v[6]>>, v[2], m)
    [] k = 21 -> LET p == Rot(p0, -Deg(v[6])) IN InRect(p, <<v[4], v[5]>>, v[2], v[3], m)
    [] k = 22 -> LET p == Rot(p0, -Deg(v[6])) IN InRect(p, <<v[4] + v[2] \div 2, v[5] + v[3] \div 2>>, v[2], v[3], m)
    [] k = 4 -> LET n == v[2] \div 1000
                    p == Rot(p0, -Deg(v[2 * n + 5]))
                IN InPoly(p, [i \in 1..n |-> <<v[2 * i + 1], v[2 * i + 2]>>], m)
    [] k = 5 -> LET p == Rot(p0, -Deg(v[6])) IN InPoly(p, RegularPoly(<<v[3], v[4]>>, v[5], v[2] \div 1000, 0), m)
    [] k = 6 -> LET p == Rot(p0, -Deg(v[9])) c == <<v[1], v[2]>> IN
                Or3(InRings(p, c, v[3], v[4], v[5], v[6] \div 1000, m),
                    Or3(InRect(p, c, v[7], v[8], m), InRect(p, c, v[8], v[7], m)))
    [] k = 7 -> LET p == Rot(p0, -Deg(v[6])) c == <<v[1], v[2]>>
                    ring == And3(InCircle(p, c, v[3], m), Not3(InCircle(p, c, v[4], m)))
                    gap == Or3(InRect(p, c, v[5], 2 * v[3], m), InRect(p, c, 2 * v[3], v[5], m))
                IN And3(ring, Not3(gap))

\* exposure: primitives 6 and 7 are always on
Exposed(pr) == IF pr[1] \in {6, 7} THEN TRUE ELSE pr[2][1] # 0

RECURSIVE MacroMask(_, _, _, _)
MacroMask(prims, p, m, acc) ==
  IF prims = <<>> THEN acc ELSE
  LET c == PrimCover(Head(prims), p, m)
      new == IF c = OUT THEN acc
             ELSE IF c = INN THEN (IF Exposed(Head(prims)) THEN INN ELSE OUT)
             ELSE IF acc = (IF Exposed(Head(prims)) THEN INN ELSE OUT) THEN acc ELSE EDGE
  IN MacroMask(Tail(prims), p, m, new)

\* ------------------------------------------------------------ apertures --
WithHole(outer, p, hole, m) == IF hole = 0 THEN outer ELSE And3(outer, Not3(InCircle(p, <<0, 0>>, hole, m)))

ApMask(ap, p, m) ==
  CASE ap.t = "C" -> WithHole(InCircle(p, <<0, 0>>, ap.p[1], m), p, ap.p[2], m)
    [] ap.t = "R" -> WithHole(InRect(p, <<0, 0>>, ap.p[1], ap.p[2], m), p, ap.p[3], m)
    [] ap.t = "O" -> WithHole(InObround(p, <<0, 0>>, ap.p[1], ap.p[2], m), p, ap.p[3], m)
    [] ap.t = "P" -> WithHole(InPoly(p, RegularPoly(<<0, 0>>, ap.p[1], ap.p[2], ap.p[3]), m), p, ap.p[4], m)
    [] ap.t = "M" -> MacroMask(ap.prims, p, m, OUT)

\* ----------------------------------------------------------- transforms --
\* tr = [mir, rot, sn, sd]: mirror, then rotate, then scale by sn/sd
NoTr == [mir |-> "N", rot |-> 0, sn |-> 1, sd |-> 1]
Mirror(p, mir) ==
  << IF mir \in {"X", "XY"} THEN -p[1] ELSE p[1], IF mir \in {"Y", "XY"} THEN -p[2] ELSE p[2] >>
Unscale(v, tr) == IF tr.sn = tr.sd THEN v ELSE RDiv(v * tr.sd, tr.sn)
\* image point -> aperture-local point
ToLocal(p, pos, tr) ==
  LET q == Sub2(p, pos)
      u == << Unscale(q[1], tr), Unscale(q[2], tr) >>
  IN Mirror(Rot(u, -tr.rot), tr.mir)
LocalMargin(m, tr) == Max(2, Unscale(m, tr)) + (IF tr = NoTr THEN 0 ELSE 2)

\* -------------------------------------------------------------- objects --
MaskEff(mask, pol) == IF mask = OUT THEN NONE ELSE IF mask = INN THEN pol ELSE UNK
Flip(e) == IF e = DARK THEN CLEAR ELSE IF e = CLEAR THEN DARK ELSE e

\* later effect on top of an earlier one; an uncertain effect of polarity
\* `pol' on something that already has that polarity changes nothing
Over(before, after) == IF after = NONE THEN before ELSE after

RECURSIVE Eff(_, _, _), Fold(_, _, _, _)
Eff(o, p, m) ==
  CASE o.k = "flash"  -> MaskEff(ApMask(o.ap, ToLocal(p, o.pos, o.tr), LocalMargin(m, o.tr)), o.pol)
    [] o.k = "line"   -> MaskEff(InCapsule(p, o.a, o.b, o.w, m), o.pol)
    [] o.k = "arc"    -> MaskEff(InThickArc(p, o.a, o.b, o.c, o.cw, o.w, m), o.pol)
    [] o.k = "region" -> MaskEff(InContour(p, o.segs, m), o.pol)
    [] o.k = "group"  ->
         LET e == Fold(o.objs, ToLocal(p, o.pos, o.tr), LocalMargin(m, o.tr), NONE)
         IN IF o.pol = CLEAR THEN Flip(e) ELSE e
Fold(objs, p, m, acc) ==
  IF objs = <<>> THEN acc
  ELSE LET e == Eff(Head(objs), p, m)
           pol == IF Head(objs).k = "group" THEN -1 ELSE Head(objs).pol
           new == IF e = NONE THEN acc
                  ELSE IF e = UNK /\ acc = pol THEN acc ELSE e
       IN Fold(Tail(objs), p, m, new)

\* final image at p: 1 dark, 0 clear, 2 undetermined (too close to an edge)
Image(objs, p, m) ==
  LET e == Fold(objs, p, m, CLEAR) IN IF e = DARK THEN 1 ELSE IF e = CLEAR THEN 0 ELSE 2

\* --------------------------------------------------------- the machine --
Opt(o, dflt) == IF o = <<>> THEN dflt ELSE o[1]

Init0 == [ x |-> 0, y |-> 0, ap |-> 0, plot |-> "L", pol |-> DARK, tr |-> NoTr, region |-> FALSE,
           contour |-> <<>>, aps |-> << >>, macros |-> << >>, stk |-> <<>>, objs |-> <<>>, stop |-> FALSE ]

Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Emit(s, o) == [s EXCEPT !.objs = Append(@, o)]
FlushContour(s) ==
  IF s.contour = <<>> THEN s
  ELSE [Emit(s, [k |-> "region", segs |-> s.contour, pol |-> s.pol]) EXCEPT !.contour = <<>>]

Width(s) == RDiv(s.aps[s.ap].p[1] * s.tr.sn, s.tr.sd)

DrawSeg(s, c) ==
  LET a == <<s.x, s.y>> b == <<Opt(c.x, s.x), Opt(c.y, s.y)>>
      ctr == <<s.x + Opt(c.i, 0), s.y + Opt(c.j, 0)>>
      moved == [s EXCEPT !.x = b[1], !.y = b[2]]
  IN IF s.region THEN
       [moved EXCEPT !.contour = Append(@, IF s.plot = "L" THEN <<"L", a, b>> ELSE <<"A", a, b, ctr, s.plot = "CW">>)]
     ELSE IF s.plot = "L" THEN Emit(moved, [k |-> "line", a |-> a, b |-> b, w |-> Width(s), pol |-> s.pol])
     ELSE Emit(moved, [k |-> "arc", a |-> a, b |-> b, c |-> ctr, cw |-> s.plot = "CW", w |-> Width(s), pol |-> s.pol])

Flash(s, c) ==
  LET pos == <<Opt(c.x, s.x), Opt(c.y, s.y)>> ap == s.aps[s.ap]
      moved == [s EXCEPT !.x = pos[1], !.y = pos[2]]
  IN IF ap.t = "B" THEN Emit(moved, [k |-> "group", objs |-> ap.objs, pos |-> pos, tr |-> s.tr, pol |-> s.pol])
     ELSE Emit(moved, [k |-> "flash", ap |-> ap, pos |-> pos, tr |-> s.tr, pol |-> s.pol])

\* step and repeat: columns (x) outermost, rows (y) innermost
Copies(objs, f) ==
  [n \in 1..(f.nx * f.ny) |->
     [k |-> "group", objs |-> objs, tr |-> NoTr, pol |-> DARK,
      pos |-> << ((n - 1) \div f.ny) * f.dx, ((n - 1) % f.ny) * f.dy >>]]

Step(s, c) ==
  IF s.stop THEN s ELSE
  CASE c.c = "D01" -> DrawSeg(s, c)
    [] c.c = "D02" -> LET t == [s EXCEPT !.x = Opt(c.x, s.x), !.y = Opt(c.y, s.y)] IN IF s.region THEN FlushContour(t) ELSE t
    [] c.c = "D03" -> Flash(s, c)
    [] c.c = "Dnn" -> [s EXCEPT !.ap = c.id]
    [] c.c = "G01" -> [s EXCEPT !.plot = "L"]
    [] c.c = "G02" -> [s EXCEPT !.plot = "CW"]
    [] c.c = "G03" -> [s EXCEPT !.plot = "CCW"]
    [] c.c = "G36" -> [s EXCEPT !.region = TRUE, !.contour = <<>>]
    [] c.c = "G37" -> [FlushContour(s) EXCEPT !.region = FALSE]
    [] c.c = "LP"  -> [s EXCEPT !.pol = IF c.v = "D" THEN DARK ELSE CLEAR]
    [] c.c = "LM"  -> [s EXCEPT !.tr.mir = c.v]
    [] c.c = "LR"  -> [s EXCEPT !.tr.rot = c.v]
    [] c.c = "LS"  -> [s EXCEPT !.tr.sn = c.sn, !.tr.sd = c.sd]
    [] c.c = "AM"  -> [s EXCEPT !.macros = Put(@, c.name, c.body)]
    [] c.c = "AD"  -> [s EXCEPT !.aps = Put(@, c.id,
                         IF c.t = "M"
                         THEN [t |-> "M", p |-> c.p, prims |-> Inst(s.macros[c.name], [i \in 1..Len(c.p) |-> c.p[i]], <<>>)]
                         ELSE [t |-> c.t, p |-> c.p])]
    [] c.c = "ABO" -> [s EXCEPT !.stk = Append(@, [k |-> "AB", id |-> c.id, objs |-> s.objs]), !.objs = <<>>]
    [] c.c = "ABC" -> LET f == s.stk[Len(s.stk)] IN
                      [s EXCEPT !.aps = Put(@, f.id, [t |-> "B", p |-> <<>>, objs |-> s.objs]),
                                !.objs = f.objs, !.stk = SubSeq(@, 1, Len(@) - 1)]
    [] c.c = "SRO" -> [s EXCEPT !.stk = Append(@, [k |-> "SR", nx |-> c.nx, ny |-> c.ny, dx |-> c.dx, dy |-> c.dy, objs |-> s.objs]), !.objs = <<>>]
    [] c.c = "SRC" -> LET f == s.stk[Len(s.stk)] IN
                      [s EXCEPT !.objs = f.objs \o Copies(s.objs, f), !.stk = SubSeq(@, 1, Len(@) - 1)]
    [] c.c = "M02" -> [s EXCEPT !.stop = TRUE]
    [] OTHER -> s   \* comments, attributes, G74/G75, headers: no effect on the image
=============================================================================
