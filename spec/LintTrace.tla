------------------------------ MODULE LintTrace -----------------------------
(* One record is one document linted: the rules asked for, what was reported
   (rule, offsets, line, column, command named in the title) and what listeners
   of a visitor heard. *)
EXTENDS Lint, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, s, ev
vars == <<t, l, s, ev>>
Init == t \in 1..Len(Traces) /\ l = 0 /\ s = Fresh /\ ev = <<>>
Set(q) == {q[i] : i \in 1..Len(q)}
ReportBad(r, i) ==
  LET w == s.reports[i]  g == r.reports[i]  q == w[2]
  IN IF g.rule # w[1] THEN "rule"
     ELSE IF g.start # r.span[q][1] THEN "start offset"
     ELSE IF r.tight /\ g.stop # r.span[q][2] THEN "end offset"
     ELSE IF g.line # Line(r.span[q][1], r.nl) \/ g.col # Column(r.span[q][1], r.nl) THEN "line and column"
     ELSE IF g.named # r.src[q].k THEN "title"
     ELSE ""
Judge(r) ==
  IF r.err # "" THEN r.err
  ELSE IF Len(r.reports) # Len(s.reports) THEN "reported " \o ToString(Len(r.reports)) \o ", expected " \o ToString(s.reports)
  ELSE LET bad == {i \in 1..Len(s.reports) : ReportBad(r, i) # ""}
       IN IF bad # {} THEN LET i == CHOOSE x \in bad : TRUE IN "report " \o ToString(i) \o ": " \o ReportBad(r, i)
          ELSE IF r.heard # ev THEN "listeners heard " \o ToString(r.heard) \o ", expected " \o ToString(ev)
          ELSE ""
Next ==
  LET r == Traces[t] IN
  /\ l <= Len(r.src)
  /\ l' = l + 1 /\ t' = t
  /\ IF l < Len(r.src)
     THEN /\ s' = LintStep(s, r.src[l + 1].k, l + 1, r.rules)
          /\ ev' = ev \o Events(r.src[l + 1], Set(r.hear))
     ELSE /\ UNCHANGED <<s, ev>>
          /\ LET bad == Judge(r) IN PrintT(IF bad = "" THEN <<"VERDICT", r.id, "ACCEPT">> ELSE <<"VERDICT", r.id, "REJECT", bad>>)
Spec == Init /\ [][Next]_vars
=============================================================================
