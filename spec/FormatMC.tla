------------------------------ MODULE FormatMC ------------------------------
(* Every command sequence over a small alphabet, under every combination of
   the options that change the command list, written one command at a time. *)
EXTENDS Format, TLC
CONSTANT Depth
T(x) == [t |-> "s", s |-> x, n |-> 0, d |-> 0, w |-> 0, e |-> <<>>]
Cm(k, j, f) == [k |-> k, j |-> j, f |-> f]
Alpha == { Cm("G01", 0, <<>>), Cm("G01", 1, <<>>), Cm("G54", 1, <<>>), Cm("G54", 0, <<>>), Cm("G55", 1, <<>>), Cm("D01", 0, <<>>),
           Cm("D03", 0, <<>>), Cm("Dnn", 0, <<T("D10")>>), Cm("LP", 0, <<T("C")>>), Cm("ABo", 0, <<T("D20")>>), Cm("ABc", 0, <<>>),
           Cm("SRo", 0, <<>>), Cm("SRc", 0, <<>>), Cm("AMo", 0, <<T("M")>>), Cm("P1", 0, <<>>), Cm("AMc", 0, <<>>) }
OptSet == [ places : {-1}, trim : {TRUE}, sep : BOOLEAN, rg54 : BOOLEAN, rg55 : BOOLEAN, expl : {FALSE}, strip : BOOLEAN, lf : {"n"},
            split : {"no", "prim"}, mend : BOOLEAN, empty : BOOLEAN, mbody : {"s"}, mparam : {""}, ab : {"ss"}, sr : {"t"}, d1 : {"s"}, d2 : {""},
            d3 : {""} ]
VARIABLES o, src, st, out
vars == <<o, src, st, out>>
Init == o \in OptSet /\ src = <<>> /\ st = F0 /\ out = <<>>
Last == src[Len(src)]
Well(c) == /\ IF src # <<>> /\ Last.j = 1 THEN c.k \in {"D01", "D03", "Dnn"} ELSE TRUE
           /\ IF st.macro THEN c.k \in {"P1", "AMc"} ELSE c.k \notin {"P1", "AMc"}
           /\ c.k = "ABc" => (st.ind # <<>> /\ st.ind[Len(st.ind)] = o.ab)
           /\ c.k = "SRc" => (st.ind # <<>> /\ st.ind[Len(st.ind)] = o.sr)
           /\ c.k \in {"SRo", "ABo"} => Len(st.ind) < 2
Next == /\ Len(src) < Depth
        /\ \E c \in Alpha : /\ Well(c)
                            /\ src' = Append(src, c)
                            /\ LET r == Put(st, c, o) IN st' = r.s /\ out' = out \o r.out
        /\ UNCHANGED o
Spec == Init /\ [][Next]_vars

\* the machine computes Write
Machine == out = Write(src, o)
\* formatting formatted output changes nothing
Idempotent == Write(Cmds(out), o) = out
\* nothing but G54 and G55 disappears, nothing is added or reordered
RECURSIVE Effective(_)
Effective(cs) == IF cs = <<>> THEN <<>>
                 ELSE (IF cs[1].k \in {"G54", "G55"} THEN <<>> ELSE << <<cs[1].k, cs[1].f>> >>) \o Effective(SubSeq(cs, 2, Len(cs)))
Meaning == Effective(src) = Effective(Cmds(out))
\* an operation stays glued to its G code exactly when codes are kept together
Glue == \A q \in 1..Len(out) : out[q][2].j = 1 => (~o.sep /\ (q < Len(out) => out[q + 1][1] = ""))
\* stripping leaves no white space
Stripped == o.strip => \A q \in 1..Len(out) : out[q][1] = ""
\* the block structure never goes wrong and ends where it began
Depths == st.ind = <<>> \/ Len(st.ind) <= 2
=============================================================================
