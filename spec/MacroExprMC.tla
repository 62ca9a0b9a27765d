---------------------------- MODULE MacroExprMC -----------------------------
(* Laws of the arithmetic, over all token sequences up to a length.        *)
EXTENDS MacroExpr, TLC, Json
CONSTANT MaxLen
N(k) == <<"n", k, 1>>
O(k) == <<"o", k, 0>>
Tok == { N(2), N(3), <<"v", 1, 0>>, O(1), O(2), O(3), O(4), O(5), O(6) }
Env == [q \in {1} |-> <<5, 1>>]
VARIABLES ts, depth, want   \* want: TRUE when an operand must come next
vars == <<ts, depth, want>>
Init == ts = <<>> /\ depth = 0 /\ want = TRUE
Next == /\ Len(ts) < MaxLen
        /\ \E k \in Tok :
             /\ ts' = Append(ts, k)
             /\ IF want
                THEN \/ k[1] # "o" /\ want' = FALSE /\ depth' = depth
                     \/ k = O(5) /\ want' = TRUE /\ depth' = depth + 1 /\ depth < 2
                     \/ k = O(2) /\ want' = TRUE /\ depth' = depth /\ (IF Len(ts) = 0 THEN TRUE ELSE ts[Len(ts)] # O(2))
                ELSE \/ k \in {O(1), O(2), O(3), O(4)} /\ want' = TRUE /\ depth' = depth
                     \/ k = O(6) /\ depth > 0 /\ want' = FALSE /\ depth' = depth - 1
        /\ (depth' = 0 /\ ~want' /\ Len(ts') >= MaxLen - 1) => PrintT(<<"BEHAVIOUR", ToJson(ts')>>)
Spec == Init /\ [][Next]_vars
Complete == depth = 0 /\ ~want
\* no division by zero can arise from these tokens unless a difference is divided by
NoDivZero(q) == ~ \E k \in 1..Len(q) : q[k] = O(4) /\ k < Len(q) /\ q[k + 1] = O(5)
ParsesWhole == (Complete /\ NoDivZero(ts)) => Whole(ts, Env)
\* parenthesising the whole expression or prefixing + changes nothing; - negates when parenthesised
Laws == (Complete /\ NoDivZero(ts)) =>
          LET v == Value(ts, Env) IN
          /\ Value(<<O(5)>> \o ts \o <<O(6)>>, Env) = v
          /\ Value(<<O(2), O(5)>> \o ts \o <<O(6)>>, Env) = RNeg(v)
          /\ Value(<<O(5)>> \o ts \o <<O(6), O(2), O(5)>> \o ts \o <<O(6)>>, Env) = <<0, 1>>
          /\ v[2] > 0
=============================================================================
