------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* A machine with registers holding the values pictures are computed with: *)
(* numbers, vectors, boxes, transformations, colours and positions.  Each  *)
(* operation makes a new value; registers never change once written.      *)
(* Lengths are in hundredths.  A value is [k, q, x]: kind, components, and *)
(* whether binary fractions represent it exactly.  "~" is a value known    *)
(* within bounds, "?" one the specification says nothing about (too large, *)
(* not a multiple of a hundredth), "!" a refusal.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
Limit == 25000
V(k, q, x) == [k |-> k, q |-> q, x |-> x]
Unknown == V("?", <<>>, FALSE)
Refused == V("!", <<>>, TRUE)
Truth(b) == V("t", <<IF b THEN 1 ELSE 0>>, TRUE)
Every(q, P(_)) == \A i \in 1..Len(q) : P(q[i])
Made(k, q, x) == IF Every(q, LAMBDA n : n >= -Limit /\ n <= Limit)
                 THEN V(k, q, x /\ Every(q, LAMBDA n : n % 25 = 0)) ELSE Unknown
\* components computed in ten-thousandths
Hundredths(k, q, x) == IF Every(q, LAMBDA n : n % 100 = 0) THEN Made(k, [i \in 1..Len(q) |-> q[i] \div 100], x) ELSE Unknown
Neg(q) == [i \in 1..Len(q) |-> -q[i]]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Fold(_, _, _), Root(_, _, _)
Fold(F(_, _), a, q) == IF q = <<>> THEN a ELSE Fold(F, F(a, Head(q)), Tail(q))
\* largest r with r * r <= n
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Length(q) == Root((q[1] * q[1]) + (q[2] * q[2]), 0, 36000)
IsLength(q) == LET r == Length(q) IN r * r = (q[1] * q[1]) + (q[2] * q[2])
\* quotient in hundredths
Divides(a, b) == b # 0 /\ ((100 * a * (IF b < 0 THEN -1 ELSE 1)) % Abs(b)) = 0
Quot(a, b) == (100 * a * (IF b < 0 THEN -1 ELSE 1)) \div Abs(b)
Pairwise(a, b) == IF a.k = "v" THEN (IF b.k = "v" THEN b.q ELSE <<b.q[1], b.q[1]>>) ELSE b.q
\* ------------------------------------------------------------- vectors --
Plus(a, b) == LET w == Pairwise(a, b) IN Made("v", <<a.q[1] + w[1], a.q[2] + w[2]>>, a.x /\ b.x)
Minus(a, b) == LET w == Pairwise(a, b) IN Made("v", <<a.q[1] - w[1], a.q[2] - w[2]>>, a.x /\ b.x)
Times(a, b) == LET w == Pairwise(a, b) IN Hundredths("v", <<a.q[1] * w[1], a.q[2] * w[2]>>, a.x /\ b.x)
Over(a, b) == LET w == Pairwise(a, b) IN
              IF w[1] = 0 \/ w[2] = 0 THEN (IF b.x THEN Refused ELSE Unknown)
              ELSE IF Divides(a.q[1], w[1]) /\ Divides(a.q[2], w[2]) THEN Made("v", <<Quot(a.q[1], w[1]), Quot(a.q[2], w[2])>>, a.x /\ b.x)
              ELSE Unknown
Size(a) == LET r == Length(a.q) IN
           IF IsLength(a.q) THEN (IF r > Limit THEN V("~", <<r, r>>, FALSE) ELSE Made("s", <<r>>, a.x)) ELSE V("~", <<r, r + 1>>, FALSE)
Unit(a) == LET r == Length(a.q) IN
           IF ~IsLength(a.q) \/ r = 0 THEN Unknown
           ELSE IF Divides(a.q[1], r) /\ Divides(a.q[2], r) THEN Made("v", <<Quot(a.q[1], r), Quot(a.q[2], r)>>, FALSE) ELSE Unknown
\* counter clockwise angle from a to b, in hundredths of a degree: <<least, greatest>>
Between(a, b) == LET c == (a[1] * b[2]) - (a[2] * b[1])
                     d == (a[1] * b[1]) + (a[2] * b[2])
                     half == IF c = 0 THEN (IF d > 0 THEN <<0, 0>> ELSE <<18000, 18000>>)
                             ELSE IF d = 0 THEN <<9000, 9000>>
                             ELSE IF Abs(c) = d THEN <<4500, 4500>>
                             ELSE IF Abs(c) = -d THEN <<13500, 13500>>
                             ELSE IF d > 0 THEN (IF Abs(c) < d THEN <<0, 4500>> ELSE <<4500, 9000>>)
                             ELSE (IF Abs(c) > -d THEN <<9000, 13500>> ELSE <<13500, 18000>>)
                 IN IF c >= 0 THEN half ELSE <<36000 - half[2], Min(35999, 36000 - half[1])>>
Turn(a, b, clockwise) ==
  IF a.q = <<0, 0>> \/ b.q = <<0, 0>> THEN Unknown
  ELSE LET r == Between(a.q, b.q)
           w == IF ~clockwise \/ r = <<0, 0>> THEN r ELSE <<36000 - r[2], Min(35999, 36000 - r[1])>>
       \* directions that agree only up to rounding may turn out slightly on either side
       IN IF w = <<0, 0>> /\ ~(a.x /\ b.x /\ a.q = b.q) THEN V("o", <<>>, FALSE) ELSE V("~", w, FALSE)
\* --------------------------------------------------------------- boxes --
Union(a, b) == IF a.k = "e" THEN b ELSE IF b.k = "e" THEN a
               ELSE Made("b", <<Min(a.q[1], b.q[1]), Min(a.q[2], b.q[2]), Max(a.q[3], b.q[3]), Max(a.q[4], b.q[4])>>, a.x /\ b.x)
Shift(a, v, by) == IF a.k = "e" THEN a ELSE Made("b", <<a.q[1] + (by * v.q[1]), a.q[2] + (by * v.q[2]), a.q[3] + (by * v.q[1]), a.q[4] + (by * v.q[2])>>, a.x /\ v.x)
PointBox(v) == V("b", v.q \o v.q, v.x)
Around(vs) == Fold(Union, V("e", <<>>, TRUE), [i \in 1..Len(vs) |-> PointBox(vs[i])])
Half(k, q, x) == IF Every(q, LAMBDA n : n % 2 = 0) THEN Made(k, [i \in 1..Len(q) |-> q[i] \div 2], x) ELSE Unknown
Centred(c, w, h) == Half("b", <<(2 * c.q[1]) - w, (2 * c.q[2]) - h, (2 * c.q[1]) + w, (2 * c.q[2]) + h>>, c.x)
\* ----------------------------------------------------- transformations --
At(m, i, j) == m.q[(3 * (i - 1)) + j]
Cell(a, b, n) == LET i == ((n - 1) \div 3) + 1
                     j == ((n - 1) % 3) + 1
                 IN (At(a, i, 1) * At(b, 1, j)) + (At(a, i, 2) * At(b, 2, j)) + (At(a, i, 3) * At(b, 3, j))
After(a, b) == Hundredths("m", [n \in 1..9 |-> Cell(a, b, n)], a.x /\ b.x)
Moved(m, v) == Hundredths("v", <<(At(m, 1, 1) * v.q[1]) + (At(m, 1, 2) * v.q[2]) + (100 * At(m, 1, 3)),
                                 (At(m, 2, 1) * v.q[1]) + (At(m, 2, 2) * v.q[2]) + (100 * At(m, 2, 3))>>, m.x /\ v.x)
Turned(c, s) == Made("m", <<c, -s, 0, s, c, 0, 0, 0, 100>>, FALSE)
Quarter(n) == CASE n % 4 = 0 -> Turned(100, 0) [] n % 4 = 1 -> Turned(0, 100) [] n % 4 = 2 -> Turned(-100, 0) [] OTHER -> Turned(0, -100)
\* ------------------------------------------------------------- colours --
Channel(n) == n >= 0 /\ n <= 255
Colour(q) == IF Every(q, Channel) THEN V("c", q, TRUE) ELSE Refused
\* hue in degrees, saturation and value in percent: nearest channel values, both when in the middle
Hsv(h0, s, v, a) ==
  LET h == h0 % 360
      top == v * s * 60
      mid == v * s * (60 - Abs((h % 120) - 60))
      low == (v * 6000) - top
      part == CASE h < 60 -> <<top, mid, 0>> [] h < 120 -> <<mid, top, 0>> [] h < 180 -> <<0, top, mid>>
                [] h < 240 -> <<0, mid, top>> [] h < 300 -> <<mid, 0, top>> [] OTHER -> <<top, 0, mid>>
      n == [i \in 1..3 |-> (part[i] + low) * 255]
      d == 600000
      down == [i \in 1..3 |-> IF 2 * (n[i] % d) <= d THEN n[i] \div d ELSE (n[i] \div d) + 1]
      up == [i \in 1..3 |-> IF 2 * (n[i] % d) >= d THEN (n[i] \div d) + 1 ELSE n[i] \div d]
  IN IF down = up THEN Colour(down \o <<a>>) ELSE V("~", down \o <<a>> \o up \o <<a>>, FALSE)
\* ------------------------------------------------- comparison and order --
Clear(a, b) == (a.x /\ b.x) \/ (\A i \in 1..Len(a.q) : a.q[i] # b.q[i])
Same(a, b) == IF a.k # b.k THEN Truth(FALSE) ELSE IF a.q # b.q THEN Truth(FALSE) ELSE IF a.x /\ b.x THEN Truth(TRUE) ELSE Unknown
Not(t) == IF t.k = "t" THEN Truth(t.q[1] = 0) ELSE t
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Order(op, a, b) ==
  IF a.k = "p" THEN Truth(CASE op = "lt" -> Before(a.q, b.q) [] op = "gt" -> Before(b.q, a.q)
                            [] op = "le" -> ~Before(b.q, a.q) [] OTHER -> ~Before(a.q, b.q))
  ELSE IF ~Clear(a, b) THEN Unknown
  ELSE Truth(CASE op = "lt" -> a.q[1] < b.q[1] /\ a.q[2] < b.q[2] [] op = "gt" -> a.q[1] > b.q[1] /\ a.q[2] > b.q[2]
               [] op = "le" -> a.q[1] <= b.q[1] /\ a.q[2] <= b.q[2] [] OTHER -> a.q[1] >= b.q[1] /\ a.q[2] >= b.q[2])
\* ------------------------------------------------------- the operations --
\* a: values of the registers used, n: numbers given
Result(op, a, n) ==
  IF \E i \in 1..Len(a) : a[i].k \in {"?", "~", "o", "!"} THEN Unknown
  ELSE CASE op = "number" -> Made("s", n, TRUE)
         [] op = "vector" -> Made("v", n, TRUE)
         [] op = "plus" -> IF a[1].k = "v" THEN (IF a[2].k \in {"b", "e"} THEN Shift(a[2], a[1], 1) ELSE Plus(a[1], a[2]))
                           ELSE IF a[2].k = "v" THEN Shift(a[1], a[2], 1) ELSE Union(a[1], a[2])
         [] op = "minus" -> IF a[1].k = "v" THEN Minus(a[1], a[2]) ELSE Shift(a[1], a[2], -1)
         [] op = "times" -> Times(a[1], a[2])
         [] op = "over" -> Over(a[1], a[2])
         [] op = "neg" -> Made("v", Neg(a[1].q), a[1].x)
         [] op = "length" -> Size(a[1])
         [] op = "unit" -> Unit(a[1])
         [] op = "ccw" -> Turn(a[1], a[2], FALSE)
         [] op = "cw" -> Turn(a[1], a[2], TRUE)
         [] op = "box" -> Made("b", n, TRUE)
         [] op = "nobox" -> V("e", <<>>, TRUE)
         [] op = "around" -> Around(a)
         [] op = "centred" -> Centred(a[1], n[1], n[2])
         [] op = "width" -> IF a[1].k = "e" THEN Unknown ELSE Made("s", <<a[1].q[3] - a[1].q[1]>>, a[1].x)
         [] op = "height" -> IF a[1].k = "e" THEN Unknown ELSE Made("s", <<a[1].q[4] - a[1].q[2]>>, a[1].x)
         [] op = "center" -> IF a[1].k = "e" THEN Unknown ELSE Half("v", <<a[1].q[1] + a[1].q[3], a[1].q[2] + a[1].q[4]>>, a[1].x)
         [] op = "translate" -> Made("m", <<100, 0, n[1], 0, 100, n[2], 0, 0, 100>>, TRUE)
         [] op = "scale" -> Made("m", <<n[1], 0, 0, 0, n[2], 0, 0, 0, 100>>, TRUE)
         [] op = "reflect" -> Made("m", <<100 - (200 * n[1]), 0, 0, 0, 100 - (200 * n[2]), 0, 0, 0, 100>>, TRUE)
         [] op = "quarter" -> Quarter(n[1])
         [] op = "turn345" -> Turned(60, 80 * n[1])
         [] op = "after" -> After(a[1], a[2])
         [] op = "moved" -> Moved(a[1], a[2])
         [] op = "row" -> Made("r", <<At(a[1], n[1] + 1, 1), At(a[1], n[1] + 1, 2), At(a[1], n[1] + 1, 3)>>, a[1].x)
         [] op = "sametag" -> IF a[1].q # a[2].q THEN Truth(FALSE) ELSE Unknown
         [] op = "rgba" -> Colour(n)
         [] op = "hex" -> Colour(n)
         [] op = "badhex" -> Refused
         [] op = "hsv" -> Hsv(n[1], n[2], n[3], n[4])
         [] op = "rgba?" -> V("c", a[1].q, TRUE)
         [] op = "position" -> V("p", n, TRUE)
         [] op = "vscode" -> V("p", <<n[1] + 1, n[2] + 1>>, TRUE)
         [] op = "zerobased" -> V("1", <<n[1] + 1, n[2] + 1>>, TRUE)
         [] op = "lsp" -> V("0", <<a[1].q[1] - 1, a[1].q[2] - 1>>, TRUE)
         [] op = "offset" -> V("p", <<a[1].q[1] + n[1], a[1].q[2] + n[2]>>, TRUE)
         [] op = "eq" -> Same(a[1], a[2])
         [] op = "ne" -> Not(Same(a[1], a[2]))
         [] op = "samehash" -> LET s == Same(a[1], a[2]) IN IF s = Truth(TRUE) THEN s ELSE Unknown
         [] OTHER -> Order(op, a[1], a[2])
\* does what was seen (k, q, fine: q says it all) agree with the value
Agrees(v, k, q, fine) ==
  IF v.k = "?" THEN TRUE
  ELSE IF v.k = "o" THEN Len(q) = 1 /\ q[1] >= 0 /\ q[1] < 36000 /\ (q[1] <= 1 \/ q[1] >= 35999)
  ELSE IF v.k = "~" THEN LET h == Len(v.q) \div 2 IN Len(q) = h /\ \A i \in 1..h : q[i] >= v.q[i] /\ q[i] <= v.q[h + i]
  ELSE k = v.k /\ fine /\ q = v.q
=============================================================================
