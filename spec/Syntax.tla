------------------------------- MODULE Syntax -------------------------------
(***************************************************************************)
(* Abstract syntax of a Gerber file and what it means for two command      *)
(* sequences to say the same.                                              *)
(*                                                                         *)
(* A command is [k, j, f]: kind, 1 when a G code is written in front of    *)
(* the operation that follows without an asterisk, and the fields.  A      *)
(* field is [t, s, n, d, w, e] with t one of                               *)
(*   "-"  absent            "s"  the text s                                *)
(*   "n"  the number n * 10^-d in lowest terms, written with w decimals    *)
(*   "e"  the macro expression e (tokens of MacroExpr)                     *)
(***************************************************************************)
EXTENDS MacroExpr

RECURSIVE Pow10(_), Lowest(_, _), DropBlank(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
Lowest(n, d) == IF d > 0 /\ n % 10 = 0 THEN Lowest(n \div 10, d - 1) ELSE <<n, d>>

\* n * 10^-d rounded to p decimals (ties are left open and not generated)
RoundAbs(n, d, p) == LET q == Pow10(d - p) IN Lowest((n + (q \div 2)) \div q, p)
RoundTo(n, d, p) == IF p < 0 \/ d <= p THEN <<n, d>>
                    ELSE IF n >= 0 THEN RoundAbs(n, d, p)
                    ELSE LET r == RoundAbs(-n, d, p) IN <<-r[1], r[2]>>

\* expressions are equal when their values are, for two independent choices of
\* the variables, the numbers of the first being rounded to p decimals
RECURSIVE DigitsOf(_)
DigitsOf(b) == IF b <= 1 THEN 0 ELSE 1 + DigitsOf(b \div 10)
RoundTok(tk, p) == IF tk[1] # "n" THEN tk
                   ELSE LET c == Lowest(tk[2], DigitsOf(tk[3]))
                            r == RoundTo(c[1], c[2], p)
                        IN <<"n", r[1], Pow10(r[2])>>
RoundExpr(e, p) == [q \in 1..Len(e) |-> RoundTok(e[q], p)]
Env1 == [q \in 0..9 |-> Norm(q + 1, 1)]
Env2 == [q \in 0..9 |-> Norm(2 * q - 5, 4)]
SameExpr(a, b, p) == LET ra == RoundExpr(a, p)
                     IN Value(ra, Env1) = Value(b, Env1) /\ Value(ra, Env2) = Value(b, Env2)

Absent(f) == f.t = "-"
FieldSame(a, b, p) ==
  /\ a.t = b.t
  /\ CASE a.t = "-" -> TRUE
       [] a.t = "s" -> a.s = b.s
       [] a.t = "n" -> RoundTo(a.n, a.d, p) = <<b.n, b.d>>
       [] a.t = "e" -> SameExpr(a.e, b.e, p)

\* an absent scale is 1, an absent mirroring is 0
Deflt(k, f) == IF Absent(f) /\ k = "SF" THEN [f EXCEPT !.t = "n", !.n = 1]
               ELSE IF Absent(f) /\ k = "MI" THEN [f EXCEPT !.t = "n", !.n = 0]
               ELSE f
\* attributes whose missing last fields mean the same as empty ones
Loose == {".GenerationSoftware", ".ProjectId", ".FlashText"}
IsLoose(c) == c.k \in {"TA", "TF", "TO"} /\ c.f[1].s \in Loose
DropBlank(fs) == IF fs = <<>> THEN fs
                 ELSE IF fs[Len(fs)].t = "s" /\ fs[Len(fs)].s = "" THEN DropBlank(SubSeq(fs, 1, Len(fs) - 1)) ELSE fs
Fields(c) == LET fs == [q \in 1..Len(c.f) |-> Deflt(c.k, c.f[q])] IN IF IsLoose(c) THEN DropBlank(fs) ELSE fs

\* numbers of these commands may be left unrounded
Unrounded == {"ADM", "SRo", "OF", "MI", "FS", "IR"}
CmdSame(a, b, p) ==
  LET fa == Fields(a)  fb == Fields(b)
  IN /\ a.k = b.k /\ Len(fa) = Len(fb)
     /\ \A q \in 1..Len(fa) : \/ FieldSame(fa[q], fb[q], p)
                              \/ a.k \in Unrounded /\ FieldSame(fa[q], fb[q], -1)
=============================================================================
