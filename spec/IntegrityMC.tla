----------------------------- MODULE IntegrityMC -----------------------------
(* A file is written character by character, signed, and then edited. *)
EXTENDS Integrity, TLC, Json
CONSTANT Size
A == {65, 42, LF, CR, 32}
VARIABLES text, loc, signed, phase, edits
vars == <<text, loc, signed, phase, edits>>
Init == text = <<>> /\ loc = 0 /\ signed = <<>> /\ phase = "write" /\ edits = <<>>
Write == phase = "write" /\ Len(text) < Size /\ \E c \in A : text' = Append(text, c) /\ UNCHANGED <<loc, signed, phase, edits>>
Sign == phase = "write" /\ loc' = Len(text) /\ signed' = Covered(text, Len(text)) /\ phase' = "edit" /\ UNCHANGED <<text, edits>>
Insert(q, c) == SubSeq(text, 1, q) \o <<c>> \o SubSeq(text, q + 1, Len(text))
Edit == /\ phase = "edit" /\ edits = <<>>
        /\ UNCHANGED <<signed, phase>>
        /\ \/ \E q \in 0..loc, c \in A : text' = Insert(q, c) /\ loc' = loc + 1 /\ edits' = <<[op |-> "insert", c |-> c]>>
           \/ \E q \in 1..loc : /\ text' = SubSeq(text, 1, q - 1) \o SubSeq(text, q + 1, Len(text)) /\ loc' = loc - 1
                                /\ edits' = <<[op |-> "delete", c |-> text[q]]>>
Next == Write \/ Sign \/ Edit
Spec == Init /\ [][Next]_vars
\* a signed file is valid; changing line ends keeps it valid, any other single change breaks it
LineEnds == phase = "edit" => (Valid(text, loc, signed) <=> (edits = <<>> \/ edits[1].c \in {LF, CR}))
Emit == IF phase = "edit" THEN PrintT(<<"BEHAVIOUR", ToJson([text |-> text, signed |-> signed])>>) ELSE TRUE
=============================================================================
