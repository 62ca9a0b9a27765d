--------------------------- MODULE MacroExprTrace ---------------------------
(* A record is one macro instance: parameters, statements executed in order
   ([set, k, tokens] assigns a variable, [out, k, tokens] paints something
   whose k-th measured quantity must equal the value) and the measurements,
   in thousandths.                                                         *)
EXTENDS MacroExpr, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, env, done
vars == <<t, l, env, done>>
Init == t \in 1..Len(Traces) /\ l = 0 /\ env = Params(Traces[t].params, 0) /\ done = FALSE

Close(v, seen) == Abs(seen * v[2] - v[1] * 1000) <= v[2]
Verdict(r, s, v) ==
  IF r.err # "" THEN "error " \o r.err
  ELSE IF ~Whole(s[3], env) THEN "spec cannot parse"
  ELSE IF s[1] = "out" /\ ~Close(v, r.seen[s[2]]) THEN "value"
  ELSE ""
Next ==
  /\ ~done /\ l < Len(Traces[t].stmts)
  /\ l' = l + 1 /\ t' = t
  /\ LET r == Traces[t]
         s == r.stmts[l']
         v == Value(s[3], env)
         bad == Verdict(r, s, v)
     IN /\ env' = IF s[1] = "set" THEN Assign(env, s[2], v) ELSE env
        /\ done' = (bad # "" \/ l' = Len(r.stmts))
        /\ IF bad # "" THEN PrintT(<<"VERDICT", r.id, "REJECT", bad, l', s[2], v, r.seen>>)
           ELSE IF done' THEN PrintT(<<"VERDICT", r.id, "ACCEPT">>) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
