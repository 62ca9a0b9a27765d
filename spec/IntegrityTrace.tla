--------------------------- MODULE IntegrityTrace ---------------------------
(* One record is one file with MD5 commands: the characters of the file, for
   every command its offset, the text its digest was computed from and what the
   code said about it. *)
EXTENDS Integrity, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES t, l, bad
Init == t \in 1..Len(Traces) /\ l = 0 /\ bad = ""
Next ==
  LET r == Traces[t] IN
  /\ l <= Len(r.marks) /\ l' = l + 1 /\ t' = t
  /\ IF l < Len(r.marks)
     THEN LET m == r.marks[l + 1]
          IN bad' = IF bad = "" /\ m.said # Valid(r.text, m.loc, m.signed)
                    THEN "mark " \o ToString(l + 1) \o (IF m.said THEN " accepted although the text was changed" ELSE " refused although nothing was changed")
                    ELSE bad
     ELSE /\ UNCHANGED bad
          /\ LET b == IF r.err # "" THEN r.err ELSE bad
             IN PrintT(IF b = "" THEN <<"VERDICT", r.id, "ACCEPT">> ELSE <<"VERDICT", r.id, "REJECT", b>>)
Spec == Init /\ [][Next]_<<t, l, bad>>
=============================================================================
