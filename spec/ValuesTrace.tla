----------------------------- MODULE ValuesTrace -----------------------------
(* One record is a program: operations with the registers used, the numbers
   given and what the code answered; at the end all registers are read again. *)
EXTENDS Values, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, regs, verdict
vars == <<t, l, regs, verdict>>
Init == t \in 1..Len(Traces) /\ l = 0 /\ regs = <<>> /\ verdict = ""
Next == LET r == Traces[t] IN
  /\ verdict = "" /\ l <= Len(r.steps) /\ t' = t /\ l' = l + 1
  /\ IF l = Len(r.steps)
     THEN /\ UNCHANGED regs
          /\ LET bad == {i \in 1..Len(regs) : r.after[i] # r.steps[i].raw}
             IN verdict' = IF bad = {} THEN "ACCEPT" ELSE "register " \o ToString(CHOOSE i \in bad : TRUE) \o " changed later"
     ELSE LET s == r.steps[l + 1]
              v == Result(s.op, [i \in 1..Len(s.a) |-> regs[s.a[i]]], s.n)
          IN /\ regs' = Append(regs, v)
             /\ verdict' = IF Agrees(v, s.k, s.q, s.fine) THEN "" ELSE "step " \o ToString(l + 1) \o ": " \o s.op \o " of " \o ToString([i \in 1..Len(s.a) |-> regs[s.a[i]].q]) \o " " \o ToString(s.n) \o " gave " \o s.raw \o " instead of " \o ToString(v.q)
  /\ IF verdict' = "" THEN TRUE ELSE PrintT(IF verdict' = "ACCEPT" THEN <<"VERDICT", r.id, "ACCEPT">> ELSE <<"VERDICT", r.id, "REJECT", verdict'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
