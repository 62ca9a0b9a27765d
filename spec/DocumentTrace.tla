---------------------------- MODULE DocumentTrace ----------------------------
(* One record is one document read by the real parser.
   Focus "nodes"  : commands, nesting, offsets, lines and columns of the tree
   Focus "visits" : callbacks a visitor received, also when some of them fail
   Focus "lookup" : commands found at positions
   Focus "modes"  : strict, prefix and resilient reading with unreadable lines *)
EXTENDS Document, TLC, Json
CONSTANTS TraceFile, Focus
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, ev, dead, fails, done
vars == <<t, l, ev, dead, fails, done>>
Init == t \in 1..Len(Traces) /\ l = 0 /\ ev = <<>> /\ dead = "" /\ fails = 0 /\ done = FALSE

\* ---- nodes
NodeBad(r, q) ==
  IF q > Len(r.nodes) THEN "command missing"
  ELSE LET n == r.nodes[q]
       IN IF ~CmdSame(r.src[q], n.c, -1) \/ r.src[q].j # n.c.j THEN "command differs"
          ELSE IF Depths(r.src)[q] # n.depth THEN "nesting"
          ELSE IF n.loc # r.span[q][1] THEN "offset"
          ELSE IF r.tight[q] /\ n.len # r.span[q][2] - r.span[q][1] THEN "length"
          ELSE IF n.line # Line(r.span[q][1], r.nl) \/ n.col # Column(r.span[q][1], r.nl) THEN "line and column"
          ELSE IF r.tight[q] /\ (n.eline # Line(r.span[q][2], r.nl) \/ n.ecol # Column(r.span[q][2], r.nl)) THEN "end line and column"
          ELSE ""
\* ---- visits: ev collects what must have been seen so far.  A callback that fails
\* ends the visit (policy "raise") or the rest of the top level command it is part of
VisitEnd(r) ==
  IF r.seen # ev THEN "callbacks differ"
  ELSE IF r.ends # 1 THEN "end of file callback"
  ELSE IF r.exc # fails THEN "exception callback"
  ELSE IF r.raised # (fails > 0 /\ r.policy = "raise") THEN "exception propagation"
  ELSE ""
\* ---- lookup
LookupBad(r) ==
  LET starts == [q \in 1..Len(r.src) |-> <<Line(r.span[q][1], r.nl), Column(r.span[q][1], r.nl)>>]
      stops == [q \in 1..Len(r.src) |-> <<Line(r.span[q][2], r.nl), Column(r.span[q][2], r.nl)>>]
      Wrong(p, got) == LET want == Find(starts, p)
                       IN got # want /\ (got # 0 \/ Inside(starts[want], stops[want], p))
      wrong == {q \in 1..Len(r.q) : Wrong(<<r.q[q][1], r.q[q][2]>>, r.q[q][3])}
  IN IF wrong = {} THEN "" ELSE LET q == CHOOSE x \in wrong : TRUE
                                IN "position " \o ToString(r.q[q]) \o " should be " \o ToString(Find(starts, <<r.q[q][1], r.q[q][2]>>))
\* ---- modes
ModesBad(r) ==
  IF r.strict # (Strict(r.items) = "all") THEN "strict mode"
  ELSE IF Strict(r.items) = "all" /\ r.nstrict # Len(r.items) THEN "strict count"
  ELSE IF Prefix(r.items) > 0 /\ ~r.prefixok THEN "prefix mode failed"
  ELSE IF Prefix(r.items) > 0 /\ r.nprefix # Prefix(r.items) THEN "prefix count"
  ELSE IF ~r.resok THEN "resilient mode failed"
  ELSE IF Len(r.res) # Len(r.items) THEN "resilient count"
  ELSE IF \E q \in 1..Len(r.items) : (r.res[q].kind # Resilient(r.items)[q]) THEN "resilient kind"
  ELSE IF \E q \in 1..Len(r.items) : r.res[q].text # r.texts[q] THEN "resilient text"
  ELSE IF \E q \in 1..Len(r.items) : r.res[q].line # r.lines[q] THEN "resilient position"
  ELSE IF ~r.same THEN "readable commands read differently"
  ELSE ""

Finish(r) ==
  IF r.err # "" THEN r.err
  ELSE CASE Focus = "nodes" -> IF Len(r.nodes) # Len(r.src) THEN "number of commands" ELSE ""
         [] Focus = "visits" -> VisitEnd(r)
         [] Focus = "lookup" -> LookupBad(r)
         [] Focus = "modes" -> ModesBad(r)
Steps(r) == IF Focus \in {"nodes", "visits"} THEN Len(r.src) ELSE 0
Next ==
  /\ ~done
  /\ LET r == Traces[t]
     IN IF r.err # "" \/ l = Steps(r)
        THEN LET bad == Finish(r)
             IN /\ done' = TRUE /\ UNCHANGED <<t, l, ev, dead, fails>>
                /\ PrintT(IF bad = "" THEN <<"VERDICT", r.id, "ACCEPT">> ELSE <<"VERDICT", r.id, "REJECT", bad>>)
        ELSE LET q == l + 1
                 c == r.src[q]
                 d == Depths(r.src)
                 bad == IF Focus = "nodes" THEN NodeBad(r, q) ELSE ""
                 \* a block stays dead until the command after its end
                 still == IF dead = "all" THEN "all" ELSE IF dead = "block" /\ ~(d[q] = 0 \/ (d[q] = 1 /\ Opens(c.k))) THEN "block" ELSE ""
                 fail == Focus = "visits" /\ still = "" /\ r.fail[q]
             IN /\ l' = q /\ t' = t /\ done' = (bad # "")
                /\ ev' = IF Focus # "visits" \/ still # "" THEN ev
                         ELSE IF fail THEN ev \o << Visits(c)[1] >> ELSE ev \o Visits(c)
                /\ fails' = fails + (IF fail THEN 1 ELSE 0)
                /\ dead' = IF ~fail THEN still ELSE IF r.policy = "raise" THEN "all" ELSE "block"
                /\ IF bad = "" THEN TRUE ELSE PrintT(<<"VERDICT", r.id, "REJECT", bad, l', c.k>>)
Spec == Init /\ [][Next]_vars
=============================================================================
