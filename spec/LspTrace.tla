------------------------------ MODULE LspTrace -------------------------------
(* One record is one conversation: what the client sent, in order, and the answers
   where they arrived.  An answer must be right for a version of the document between
   the one current when it was asked and the one current when the answer came; every
   question is answered once. *)
EXTENDS Lsp, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, cur, pend, verdict
vars == <<t, l, cur, pend, verdict>>
Uris(r) == {r.events[k].u : k \in 1..Len(r.events)}
Init == t \in 1..Len(Traces) /\ l = 0 /\ cur = [u \in Uris(Traces[t]) |-> 0] /\ pend = <<>> /\ verdict = ""
Bad(r, q, a) == LET v == CHOOSE v \in q.alts : \A w \in q.alts : w >= v IN Judge(r.events[v].units, q, a)
\* events 1..Len: [e |-> "set", u, units], [e |-> "close", u], [e |-> "ask", u, id, line, ch, kind], [e |-> "answer", u, id, ...]
Next == LET r == Traces[t] IN
  /\ verdict = "" /\ l <= Len(r.events) /\ t' = t /\ l' = l + 1
  /\ IF l = Len(r.events)
     THEN /\ UNCHANGED <<cur, pend>>
          /\ verdict' = IF DOMAIN pend # {} THEN "question not answered" ELSE "ACCEPT"
     ELSE LET e == r.events[l + 1] IN
       CASE e.e = "set" -> /\ cur' = [cur EXCEPT ![e.u] = l + 1] /\ verdict' = ""
                           /\ pend' = [i \in DOMAIN pend |-> IF pend[i].u = e.u THEN [pend[i] EXCEPT !.alts = @ \cup {l + 1}] ELSE pend[i]]
         [] e.e = "close" -> /\ cur' = [cur EXCEPT ![e.u] = 0] /\ verdict' = ""
                             /\ pend' = [i \in DOMAIN pend |-> IF pend[i].u = e.u THEN [pend[i] EXCEPT !.loose = TRUE] ELSE pend[i]]
         [] e.e = "ask" -> /\ UNCHANGED cur /\ verdict' = ""
                           /\ pend' = Put(pend, e.id, [u |-> e.u, line |-> e.line, ch |-> e.ch, kind |-> e.kind, loose |-> cur[e.u] = 0, alts |-> {cur[e.u]}])
         [] OTHER -> LET q == pend[e.id] IN
                     /\ UNCHANGED cur /\ pend' = Del(pend, e.id)
                     /\ verdict' = IF q.loose THEN (IF e.a.err # "" THEN "error " \o e.a.err ELSE "")
                                   ELSE IF \E v \in q.alts : Judge(r.events[v].units, q, e.a) = "" THEN ""
                                   ELSE q.kind \o " at " \o ToString(<<q.line, q.ch>>) \o ": " \o Bad(r, q, e.a)
  /\ IF verdict' = "" THEN TRUE
     ELSE PrintT(IF verdict' = "ACCEPT" THEN <<"VERDICT", r.id, "ACCEPT">> ELSE <<"VERDICT", r.id, "REJECT", verdict'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
