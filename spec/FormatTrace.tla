----------------------------- MODULE FormatTrace -----------------------------
(* One record is one formatting of a source by the real formatter: the
   commands of the source, the options, the commands and white space read
   from its output, whether the output could be parsed again and what a
   second formatting gave.  Focus "meaning" judges the commands, "layout"
   white space, decimals and repetition.                                   *)
EXTENDS Format, TLC, Json
CONSTANTS TraceFile, Focus
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, st, pos, done
vars == <<t, l, st, pos, done>>
Init == t \in 1..Len(Traces) /\ l = 0 /\ st = F0 /\ pos = 0 /\ done = FALSE

Layout(r, w, seen) ==
  IF w[1] # seen.pre /\ ~seen.nest THEN "white space"
  ELSE IF seen.c.k # "P4" /\ ~\A q \in 1..Len(seen.pw) : seen.pw[q] = ParamPre(r.o) THEN "parameter white space"
  ELSE IF ~\A q \in 1..Len(seen.c.f) : ((seen.c.k \notin Unrounded /\ ~(seen.c.k = "ADP" /\ q = 3)) => NumText(seen.c.f[q], r.o)) THEN "decimals"
  ELSE ""
Judge(r, w, seen) ==
  IF Focus = "meaning"
  THEN IF ~CmdSame(w[2], seen.c, r.o.places) THEN "command changed"
       ELSE IF w[2].j # seen.c.j THEN "code separation"
       ELSE ""
  ELSE Layout(r, w, seen)
Ending(r) ==
  IF r.err # "" THEN r.err
  ELSE IF Focus = "meaning" /\ ~r.reparse THEN "output does not parse"
  ELSE IF Focus = "layout" /\ ~r.again THEN "not idempotent"
  ELSE IF Focus = "layout" /\ r.trail # Lf(r.o) THEN "end of file"
  ELSE IF Focus = "layout" /\ ~r.fixed THEN "options change in use"
  ELSE ""
Next ==
  /\ ~done
  /\ LET r == Traces[t]
     IN IF r.err # "" \/ l = Len(r.src)
        THEN LET bad == IF r.err = "" /\ pos # Len(r.out) THEN "extra commands" ELSE Ending(r)
             IN /\ done' = TRUE /\ UNCHANGED <<t, l, st, pos>>
                /\ PrintT(IF bad = "" THEN <<"VERDICT", r.id, "ACCEPT">> ELSE <<"VERDICT", r.id, "REJECT", bad, l>>)
        ELSE LET p == Put(st, r.src[l + 1], r.o)
                 n == Len(p.out)
                 bad == IF n = 0 THEN "" ELSE IF pos + 1 > Len(r.out) THEN "missing commands" ELSE Judge(r, p.out[1], r.out[pos + 1])
             IN /\ l' = l + 1 /\ st' = p.s /\ pos' = pos + n /\ t' = t /\ done' = (bad # "")
                /\ IF bad = "" THEN TRUE ELSE PrintT(<<"VERDICT", r.id, "REJECT", bad, l', r.src[l'].k>>)
Spec == Init /\ [][Next]_vars
=============================================================================
