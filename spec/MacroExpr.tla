------------------------------ MODULE MacroExpr ------------------------------
(***************************************************************************)
(* Arithmetic of aperture macros: tokens -> value, with exact rational     *)
(* numbers <<numerator, denominator>>.                                     *)
(*   expr   ::= term  { (+|-) term }                                       *)
(*   term   ::= factor { (x|/) factor }                                    *)
(*   factor ::= (+|-) factor | number | variable | ( expr )                *)
(* Both levels associate to the left; an unassigned variable is 0.         *)
(* Tokens: ["n", num, den], ["v", index, 0], ["o", code, 0] with codes     *)
(* 1 + , 2 - , 3 x , 4 / , 5 ( , 6 )                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Gcd(_, _)
Abs(a) == IF a < 0 THEN -a ELSE a
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                  g == Gcd(Abs(n), Abs(d))
              IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), Abs(d) \div g>>
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RMul(a, b) == LET g == Gcd(Abs(a[1]), b[2])
                  h == Gcd(Abs(b[1]), a[2])
              IN IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>> ELSE Norm((a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g))
RInv(a) == Norm(a[2], a[1])

IsOp(ts, p, code) == p <= Len(ts) /\ ts[p][1] = "o" /\ ts[p][2] = code
Var(env, k) == IF k \in DOMAIN env THEN env[k] ELSE <<0, 1>>

\* each parser returns <<value, next position>>
RECURSIVE PExpr(_, _, _), PExprRest(_, _, _, _), PTerm(_, _, _), PTermRest(_, _, _, _), PFactor(_, _, _)
PExpr(ts, p, env) == LET a == PTerm(ts, p, env) IN PExprRest(ts, a[2], env, a[1])
PExprRest(ts, p, env, acc) ==
  IF IsOp(ts, p, 1) THEN LET b == PTerm(ts, p + 1, env) IN PExprRest(ts, b[2], env, RAdd(acc, b[1]))
  ELSE IF IsOp(ts, p, 2) THEN LET b == PTerm(ts, p + 1, env) IN PExprRest(ts, b[2], env, RAdd(acc, RNeg(b[1])))
  ELSE <<acc, p>>
PTerm(ts, p, env) == LET a == PFactor(ts, p, env) IN PTermRest(ts, a[2], env, a[1])
PTermRest(ts, p, env, acc) ==
  IF IsOp(ts, p, 3) THEN LET b == PFactor(ts, p + 1, env) IN PTermRest(ts, b[2], env, RMul(acc, b[1]))
  ELSE IF IsOp(ts, p, 4) THEN LET b == PFactor(ts, p + 1, env) IN PTermRest(ts, b[2], env, RMul(acc, RInv(b[1])))
  ELSE <<acc, p>>
PFactor(ts, p, env) ==
  IF IsOp(ts, p, 2) THEN LET a == PFactor(ts, p + 1, env) IN <<RNeg(a[1]), a[2]>>
  ELSE IF IsOp(ts, p, 1) THEN PFactor(ts, p + 1, env)
  ELSE IF IsOp(ts, p, 5) THEN LET a == PExpr(ts, p + 1, env) IN <<a[1], a[2] + 1>>
  ELSE IF ts[p][1] = "n" THEN <<Norm(ts[p][2], ts[p][3]), p + 1>>
  ELSE <<Var(env, ts[p][2]), p + 1>>
Value(ts, env) == PExpr(ts, 1, env)[1]
Whole(ts, env) == PExpr(ts, 1, env)[2] = Len(ts) + 1

Assign(env, k, v) == [q \in DOMAIN env \cup {k} |-> IF q = k THEN v ELSE env[q]]
Params(ps, k) == [q \in 1..Len(ps) |-> Norm(ps[q][1], ps[q][2])]
=============================================================================
