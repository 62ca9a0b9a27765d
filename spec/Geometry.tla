------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Exact integer geometry used by the image semantics.  All lengths are    *)
(* lattice units (1 unit = 1/1000 of the file unit).  Coverage predicates  *)
(* are three-valued: a point is IN a shape, OUT of it, or within `m' units *)
(* of the boundary (EDGE), where nothing is claimed.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

OUT  == 0
INN  == 1
EDGE == 2

Abs(n) == IF n < 0 THEN -n ELSE n
Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b

\* Division rounding to nearest (TLA+ \div rounds towards -infinity).
RDiv(a, b) == IF b < 0 THEN (2 * (-a) - b) \div (2 * (-b)) ELSE (2 * a + b) \div (2 * b)

RECURSIVE Newton(_, _)
Newton(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE Newton(n, h)

Guess(n) ==
  IF n < 1000 THEN 32 ELSE IF n < 65536 THEN 256 ELSE IF n < 1000000 THEN 1000
  ELSE IF n < 16777216 THEN 4096 ELSE IF n < 100000000 THEN 10000 ELSE 46341

\* floor of the square root
ISqrt(n) == IF n <= 0 THEN 0 ELSE IF n < 4 THEN 1 ELSE Newton(n, Guess(n))

Dist(dx, dy) == ISqrt(dx * dx + dy * dy)

Not3(v) == IF v = INN THEN OUT ELSE IF v = OUT THEN INN ELSE EDGE
And3(a, b) == IF a = OUT \/ b = OUT THEN OUT ELSE IF a = INN /\ b = INN THEN INN ELSE EDGE
Or3(a, b)  == IF a = INN \/ b = INN THEN INN ELSE IF a = OUT /\ b = OUT THEN OUT ELSE EDGE

\* 10000 * sin of a multiple of 15 degrees / of a few extra angles
Sin15 == <<0, 2588, 5000, 7071, 8660, 9659, 10000>>
Angles == {0, 15, 18, 30, 36, 45, 54, 60, 72, 75, 90}
\* sin in 1/10000 for 0..90 degrees in steps of 3 degrees
Sin3 == << 0, 523, 1045, 1564, 2079, 2588, 3090, 3584, 4067, 4540, 5000, 5446,
           5878, 6293, 6691, 7071, 7431, 7771, 8090, 8387, 8660, 8910, 9135,
           9336, 9511, 9659, 9781, 9877, 9945, 9986, 10000 >>

\* deg: any integer multiple of 3
SinD(deg) ==
  LET d == deg % 360 IN
  IF d <= 90 THEN Sin3[(d \div 3) + 1]
  ELSE IF d <= 180 THEN Sin3[((180 - d) \div 3) + 1]
  ELSE IF d <= 270 THEN -Sin3[((d - 180) \div 3) + 1]
  ELSE -Sin3[((360 - d) \div 3) + 1]
CosD(deg) == SinD(deg + 90)

\* rotate p counter-clockwise by deg about the origin
Rot(p, deg) ==
  IF deg = 0 THEN p ELSE
  LET c == CosD(deg) s == SinD(deg) IN
  << RDiv(c * p[1] - s * p[2], 10000), RDiv(s * p[1] + c * p[2], 10000) >>

Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Dot(a, b)   == a[1] * b[1] + a[2] * b[2]
Sub2(a, b)  == << a[1] - b[1], a[2] - b[2] >>
Add2(a, b)  == << a[1] + b[1], a[2] + b[2] >>

\* compare a length with a threshold, with margin
Within(d2, t2, m) == \* twice-distances: d2 = 2*distance, t2 = 2*threshold
  IF d2 <= t2 - 2 * m THEN INN ELSE IF d2 >= t2 + 2 * m THEN OUT ELSE EDGE

InCircle(p, c, d, m) ==
  LET dx == Abs(p[1] - c[1]) dy == Abs(p[2] - c[2]) r == d + 2 * m IN
  IF 2 * dx > r \/ 2 * dy > r THEN OUT
  ELSE Within(2 * Dist(dx, dy), d, m)

InRect(p, c, w, h, m) ==
  LET dx == 2 * Abs(p[1] - c[1]) dy == 2 * Abs(p[2] - c[2]) IN
  And3(Within(dx, w, m), Within(dy, h, m))

\* distance from a point to a segment
SegDist(p, a, b) ==
  LET ab == Sub2(b, a) ap == Sub2(p, a) dd == Dot(ab, ab) t == Dot(ap, ab) IN
  IF dd = 0 \/ t <= 0 THEN Dist(ap[1], ap[2])
  ELSE IF t >= dd THEN Dist(p[1] - b[1], p[2] - b[2])
  ELSE Abs(Cross(ab, ap)) \div ISqrt(dd)

\* segment swept by a disc of diameter t
InCapsule(p, a, b, t, m) ==
  LET r == (t \div 2) + m + 1 IN
  IF \/ p[1] > Max(a[1], b[1]) + r \/ p[1] < Min(a[1], b[1]) - r
     \/ p[2] > Max(a[2], b[2]) + r \/ p[2] < Min(a[2], b[2]) - r
  THEN OUT ELSE Within(2 * SegDist(p, a, b), t, m)

\* rectangle of width t whose axis is the segment (flat ends)
InBar(p, a, b, t, m) ==
  LET ab == Sub2(b, a) ap == Sub2(p, a) L == ISqrt(Dot(ab, ab)) IN
  IF L = 0 THEN OUT ELSE
  LET along == RDiv(Dot(ap, ab), L) perp == Abs(Cross(ab, ap)) \div L IN
  And3(Within(2 * perp, t, m), Within(Abs(2 * along - L), L, m))

InObround(p, c, w, h, m) ==
  IF w = h THEN InCircle(p, c, w, m)
  ELSE IF w > h THEN InCapsule(p, <<c[1] - (w - h) \div 2, c[2]>>, <<c[1] + (w - h) \div 2, c[2]>>, h, m)
  ELSE InCapsule(p, <<c[1], c[2] - (h - w) \div 2>>, <<c[1], c[2] + (h - w) \div 2>>, w, m)

\* does the half-line going right from p cross the edge a-b ?
Crosses(p, a, b) ==
  /\ (a[2] > p[2]) # (b[2] > p[2])
  /\ LET cr == Cross(Sub2(b, a), Sub2(p, a)) IN IF b[2] > a[2] THEN cr > 0 ELSE cr < 0

InPoly(p, vs, m) ==
  LET n == Len(vs)
      nxt(i) == IF i = n THEN 1 ELSE i + 1
      near == \E i \in 1..n : SegDist(p, vs[i], vs[nxt(i)]) <= m
      k == Cardinality({i \in 1..n : Crosses(p, vs[i], vs[nxt(i)])})
  IN IF near THEN EDGE ELSE IF k % 2 = 1 THEN INN ELSE OUT

RegularPoly(c, d, n, rot) ==
  [i \in 1..n |-> Add2(c, Rot(<<d \div 2, 0>>, rot + (360 \div n) * (i - 1)))]

\* Is direction v inside the sector swept counter-clockwise from a to b ?
InSectorCCW(v, a, b) ==
  IF Cross(a, b) > 0 \/ (Cross(a, b) = 0 /\ Dot(a, b) > 0)
  THEN Cross(a, v) >= 0 /\ Cross(v, b) >= 0
  ELSE IF Cross(a, b) = 0 THEN Cross(a, v) >= 0   \* half turn
  ELSE ~(Cross(b, v) > 0 /\ Cross(v, a) > 0)

InSector(v, a, b, cw) == IF cw THEN InSectorCCW(v, b, a) ELSE InSectorCCW(v, a, b)

\* distance from p to the arc from a to b about c (a = b : full circle)
ArcDist(p, a, b, c, cw) ==
  LET r == Dist(a[1] - c[1], a[2] - c[2])
      v == Sub2(p, c)
      onring == Abs(Dist(v[1], v[2]) - r)
  IN IF a = b \/ InSector(v, Sub2(a, c), Sub2(b, c), cw) THEN onring
     ELSE Min(Dist(p[1] - a[1], p[2] - a[2]), Dist(p[1] - b[1], p[2] - b[2]))

InThickArc(p, a, b, c, cw, t, m) == Within(2 * ArcDist(p, a, b, c, cw), t, m)

(* Contours: sequence of segments << "L", a, b >> or << "A", a, b, c, cw >>.
   A point is inside iff the crossing parity with the polygon of chords,
   toggled once for every circular segment (between chord and arc) that
   contains the point, is odd. *)
InArcSegment(p, a, b, c, cw) ==
  LET r2 == Dot(Sub2(a, c), Sub2(a, c)) v == Sub2(p, c)
      chord == Sub2(b, a)
      \* a ccw arc lies to the right of its chord
      side == Cross(chord, Sub2(p, a))
  IN Dot(v, v) < r2 /\ (IF cw THEN side > 0 ELSE side < 0)

\* full circles are one segment with a = b
SegNear(p, s, m) ==
  IF s[1] = "L" THEN SegDist(p, s[2], s[3]) <= m
  ELSE ArcDist(p, s[2], s[3], s[4], s[5]) <= m

SegToggles(p, s) ==
  IF s[1] = "L" THEN (IF Crosses(p, s[2], s[3]) THEN 1 ELSE 0)
  ELSE IF s[2] = s[3] THEN
     LET v == Sub2(p, s[4]) w == Sub2(s[2], s[4]) IN (IF Dot(v, v) < Dot(w, w) THEN 1 ELSE 0)
  ELSE (IF Crosses(p, s[2], s[3]) THEN 1 ELSE 0) + (IF InArcSegment(p, s[2], s[3], s[4], s[5]) THEN 1 ELSE 0)

\* exactly on the chord of an arc the two parity rules do not fit together
OnChord(p, s) == s[1] = "A" /\ s[2] # s[3] /\ Cross(Sub2(s[3], s[2]), Sub2(p, s[2])) = 0

RECURSIVE Parity(_, _, _)
Parity(p, segs, i) == IF i = 0 THEN 0 ELSE (SegToggles(p, segs[i]) + Parity(p, segs, i - 1)) % 2

InContour(p, segs, m) ==
  LET n == Len(segs)
      closing == IF n = 0 THEN <<>> ELSE IF segs[n][3] = segs[1][2] THEN <<>> ELSE << <<"L", segs[n][3], segs[1][2]>> >>
      all == segs \o closing
  IN IF n = 0 THEN OUT
     ELSE IF \E i \in 1..Len(all) : SegNear(p, all[i], m) \/ OnChord(p, all[i]) THEN EDGE
     ELSE IF Parity(p, all, Len(all)) = 1 THEN INN ELSE OUT
=============================================================================
