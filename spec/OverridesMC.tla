----------------------------- MODULE OverridesMC -----------------------------
(* Sequences of making parsers with sets of overridden kinds and using them,
   in any order; a parser keeps its classes whatever others are made. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kinds, Docs, Depth
VARIABLES parsers, hist, last
vars == <<parsers, hist, last>>
Init == parsers = <<>> /\ hist = <<>> /\ last = <<>>
New(s) == /\ Len(parsers) < 3 /\ parsers' = Append(parsers, s) /\ last' = <<>>
          /\ hist' = Append(hist, [a |-> "new", p |-> Len(parsers) + 1, over |-> [k \in Kinds |-> k \in s], d |-> 0])
Use(p, d) == /\ UNCHANGED parsers /\ last' = <<p, [k \in Kinds |-> IF k \in parsers[p] THEN p ELSE 0]>>
             /\ hist' = Append(hist, [a |-> "use", p |-> p, over |-> [k \in Kinds |-> FALSE], d |-> d])
Next == /\ Len(hist) < Depth
        /\ (\E s \in SUBSET Kinds : New(s)) \/ (\E p \in 1..Len(parsers), d \in Docs : Use(p, d))
        /\ (Len(hist') = Depth /\ hist'[Depth].a = "use") => PrintT(<<"BEHAVIOUR", ToJson(hist')>>)
Spec == Init /\ [][Next]_vars
\* the classes of nodes are decided by the parser used, not by the others
Own == last # <<>> => \A k \in Kinds : last[2][k] \in {0, last[1]} /\ (last[2][k] = last[1] <=> k \in parsers[last[1]])
=============================================================================
