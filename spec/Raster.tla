------------------------------- MODULE Raster -------------------------------
(***************************************************************************)
(* Pictures of files.  A file is a sequence of dark and clear rectangles   *)
(* with a foreground and a background colour; a picture of it shows its    *)
(* extents, top row first, at a resolution in dots per millimetre, and a   *)
(* composed picture shows several files aligned and stacked bottom up.     *)
(* Lengths are ten-thousandths of a millimetre.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MM == 10000
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
INN == 1
OUT == 0
EDGE == 2

\* rectangle or extents <<x1, y1, x2, y2, ...>>
Inside(p, r, m) ==
  IF p[1] < r[1] - m \/ p[1] > r[3] + m \/ p[2] < r[2] - m \/ p[2] > r[4] + m THEN OUT
  ELSE IF p[1] > r[1] + m /\ p[1] < r[3] - m /\ p[2] > r[2] + m /\ p[2] < r[4] - m THEN INN
  ELSE EDGE

\* the last rectangle that covers p decides, 1 dark, 0 clear
RECURSIVE Dark(_, _, _)
Dark(rects, p, m) ==
  IF rects = <<>> THEN OUT
  ELSE LET r == rects[Len(rects)]  q == Inside(p, r, m)
           below == Dark(SubSeq(rects, 1, Len(rects) - 1), p, m)
       IN CASE q = INN -> r[5]
            [] q = OUT -> below
            [] OTHER   -> IF below = r[5] THEN below ELSE EDGE

RECURSIVE Extents(_)
Extents(rects) ==
  LET r == rects[1] IN
  IF Len(rects) = 1 THEN <<r[1], r[2], r[3], r[4]>>
  ELSE LET b == Extents(Tail(rects)) IN <<Min(b[1], r[1]), Min(b[2], r[2]), Max(b[3], r[3]), Max(b[4], r[4])>>
RECURSIVE Hull(_)
Hull(fs) ==
  LET b == Extents(fs[1].rects) IN
  IF Len(fs) = 1 THEN b
  ELSE LET h == Hull(Tail(fs)) IN <<Min(b[1], h[1]), Min(b[2], h[2]), Max(b[3], h[3]), Max(b[4], h[4])>>

\* colour <<r, g, b, a>> of a file at a point of its extents, <<>> if not judged
Colour(f, p, m) == LET d == Dark(f.rects, p, m) IN IF d = EDGE THEN <<>> ELSE IF d = INN THEN f.fg ELSE f.bg

Nothing == <<0, 0, 0, 0>>
\* stack of files: opaque colours cover, transparent ones let through
RECURSIVE Stacked(_, _, _)
Stacked(fs, p, m) ==
  IF fs = <<>> THEN Nothing
  ELSE LET f == fs[Len(fs)]
           below == Stacked(SubSeq(fs, 1, Len(fs) - 1), p, m)
           in == Inside(p, Extents(f.rects), m)
           c == Colour(f, p, m)
       IN CASE in = OUT -> below
            [] in = EDGE -> <<>>
            [] c = <<>> -> <<>>
            [] c[4] = 255 -> c
            [] c[4] = 0 -> below
            [] OTHER -> <<>>

\* centre of pixel <<column, row>> of a picture of extents b
At(b, q, dpmm) == <<b[1] + ((2 * q[1] + 1) * MM) \div (2 * dpmm), b[4] - ((2 * q[2] + 1) * MM) \div (2 * dpmm)>>
\* a picture of n pixels shows a length, give or take `slack' pixels
SizeOk(n, length, dpmm, slack) == Abs(n * MM - length * dpmm) <= slack * MM + dpmm * 10
=============================================================================
