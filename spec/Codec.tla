-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Packed coordinates.  A packed coordinate is a sign and a digit string;  *)
(* a value is a sign and exactly int+dec digits (so no size limit).        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Zeros(n) == [k \in 1..n |-> 0]
AllZero(q) == \A k \in 1..Len(q) : q[k] = 0
Canon(v) == IF AllZero(v[2]) THEN <<1, v[2]>> ELSE v      \* no negative zero

\* ------------------------------------------------------------- unpacking
\* fmt = [z, int, dec]; packed = <<sign (1/-1), digits>>
Bad(fmt, p) == Len(p[2]) = 0 \/ Len(p[2]) > fmt.int + fmt.dec
Pad(fmt, digits) == LET n == fmt.int + fmt.dec - Len(digits)
                    IN IF fmt.z = "T" THEN digits \o Zeros(n) ELSE Zeros(n) \o digits
Unpack(fmt, p) == Canon(<<p[1], Pad(fmt, p[2])>>)

\* --------------------------------------------------------------- packing
\* value with extra digits is rounded to the nearest representable one
RECURSIVE Inc(_)
Inc(q) == IF q = <<>> THEN <<1>>
          ELSE IF q[Len(q)] < 9 THEN [q EXCEPT ![Len(q)] = @ + 1]
          ELSE LET h == SubSeq(q, 1, Len(q) - 1) IN Inc(h) \o <<0>>
\* digits: int + dec + extra; the first dropped digit decides (ties are not generated)
Round(digits, extra) == LET n == Len(digits) - extra
                            h == SubSeq(digits, 1, n)
                        IN IF extra > 0 /\ digits[n + 1] >= 5 THEN Inc(h) ELSE h
RECURSIVE LStrip(_), RStrip(_)
LStrip(q) == IF q = <<>> THEN <<0>> ELSE IF q[1] # 0 THEN q ELSE LStrip(Tail(q))
RStrip(q) == IF q = <<>> THEN <<0>> ELSE IF q[Len(q)] # 0 THEN q ELSE RStrip(SubSeq(q, 1, Len(q) - 1))
Overflow(fmt, rounded) == Len(LStrip(rounded)) > fmt.int + fmt.dec
Fit(fmt, rounded) == IF Len(rounded) > fmt.int + fmt.dec THEN Tail(rounded) ELSE rounded
Pack(fmt, v) == <<v[1], IF fmt.z = "T" THEN RStrip(v[2]) ELSE LStrip(v[2])>>
=============================================================================
