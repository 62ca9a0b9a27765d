------------------------------ MODULE RasterMC ------------------------------
(* A view is built file by file, rectangle by rectangle; its composed picture
   is also painted pixel by pixel onto a canvas and compared. *)
EXTENDS Raster, TLC
CONSTANTS Files, Rects, Dots
Xs == {<<0, 0, 20000, 20000, 1>>, <<10000, -10000, 30000, 10000, 1>>, <<10000, 0, 20000, 10000, 0>>, <<-20000, 10000, -10000, 20000, 1>>}
Inks == {<<9, 9, 9, 255>>, <<0, 0, 0, 0>>}
VARIABLE v
Init == v = <<>>
NewFile == /\ Len(v) < Files
           /\ \E r \in Xs, a, b \in Inks : v' = Append(v, [rects |-> <<r>>, fg |-> [a EXCEPT ![1] = IF a[4] = 0 THEN 0 ELSE 10 * (Len(v) + 1)], bg |-> b])
NewRect == /\ v # <<>> /\ Len(v[Len(v)].rects) < Rects
           /\ \E r \in Xs : v' = [v EXCEPT ![Len(v)].rects = Append(@, r)]
Next == NewFile \/ NewRect
Spec == Init /\ [][Next]_v

\* painting: every file is drawn onto its own picture, which is pasted onto the canvas
Width(b) == ((b[3] - b[1]) * Dots) \div MM
Height(b) == ((b[4] - b[2]) * Dots) \div MM
Picture(f) == LET b == Extents(f.rects)
              IN [q \in {<<i, j>> : i \in 0..(Width(b) - 1), j \in 0..(Height(b) - 1)} |-> Colour(f, At(b, q, Dots), 1)]
RECURSIVE Canvas(_, _)
Canvas(fs, h) ==
  IF fs = <<>> THEN [q \in {<<i, j>> : i \in 0..(Width(h) - 1), j \in 0..(Height(h) - 1)} |-> Nothing]
  ELSE LET f == fs[Len(fs)]  below == Canvas(SubSeq(fs, 1, Len(fs) - 1), h)
           b == Extents(f.rects)  pic == Picture(f)
           dx == ((b[1] - h[1]) * Dots) \div MM  dy == ((h[4] - b[4]) * Dots) \div MM
       IN [q \in DOMAIN below |->
             LET s == <<q[1] - dx, q[2] - dy>>
             IN IF s \in DOMAIN pic /\ pic[s][4] # 0 THEN pic[s] ELSE below[q]]
PaintedIsStacked ==
  v # <<>> => LET h == Hull(v)  c == Canvas(v, h)
              IN \A q \in DOMAIN c : LET want == Stacked(v, At(h, q, Dots), 1) IN want # <<>> => c[q] = want
SizesOk == v # <<>> => LET h == Hull(v) IN SizeOk(Width(h), h[3] - h[1], Dots, 1) /\ SizeOk(Height(h), h[4] - h[2], Dots, 1)
\* a transparent file on top changes nothing, an opaque one hides everything in its extents
TopRules ==
  v # <<>> => LET f == v[Len(v)]  rest == SubSeq(v, 1, Len(v) - 1)  h == Hull(v)
              IN \A i \in 0..(Width(h) - 1), j \in 0..(Height(h) - 1) :
                   LET p == At(h, <<i, j>>, Dots)  c == Stacked(v, p, 1)
                   IN /\ f.fg[4] = 0 /\ f.bg[4] = 0 /\ c # <<>> => c = Stacked(rest, p, 1)
                      /\ f.bg[4] = 255 /\ f.fg[4] = 255 /\ Inside(p, Extents(f.rects), 1) = INN /\ c # <<>> => c \in {f.fg, f.bg}
=============================================================================
