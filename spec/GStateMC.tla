------------------------------ MODULE GStateMC ------------------------------
(* Exhaustive exploration of the graphics state machine over a small
   alphabet, printing every behaviour for replay into the real tracker.   *)
EXTENDS GState, Json
CONSTANTS Alphabet, Depth

Op(c, x, y) == [c |-> c, x |-> x, y |-> y, i |-> <<>>, j |-> <<>>]
FS == [c |-> "FS", z |-> "L", m |-> "A", xi |-> 3, xd |-> 3, yi |-> 3, yd |-> 3]
Modal == { FS, [c |-> "G01"], [c |-> "G02"], [c |-> "G03"], [c |-> "G74"], [c |-> "G75"], [c |-> "G36"], [c |-> "G37"],
           [c |-> "AD", id |-> 10, t |-> "C"], [c |-> "Dnn", id |-> 10], [c |-> "LP", v |-> "C"],
           Op("D01", <<1000000>>, <<>>), [Op("D01", <<>>, <<2000000>>) EXCEPT !.i = <<500000>>], Op("D02", <<>>, <<3000000>>), Op("D03", <<>>, <<>>),
           [c |-> "M02"] }
Attr == { [c |-> "TA", name |-> "a", k |-> 1], [c |-> "TA", name |-> "a", k |-> 2], [c |-> "TA", name |-> "b", k |-> 3],
          [c |-> "TO", name |-> "a", k |-> 4], [c |-> "TO", name |-> "b", k |-> 5], [c |-> "TF", name |-> "a", k |-> 6],
          [c |-> "TF", name |-> "a", k |-> 7],
          [c |-> "TD", name |-> ""], [c |-> "TD", name |-> "a"], [c |-> "AD", id |-> 10, t |-> "C"], [c |-> "AD", id |-> 11, t |-> "R"],
          [c |-> "Dnn", id |-> 10], Op("D03", <<>>, <<>>), Op("D01", <<>>, <<1000000>>) }
Cmds == IF Alphabet = "modal" THEN Modal ELSE Attr
Prelude == IF Alphabet = "modal" THEN <<>> ELSE << FS, [c |-> "AD", id |-> 12, t |-> "C"], [c |-> "Dnn", id |-> 12] >>

VARIABLES st, hist, ev
vars == <<st, hist, ev>>
Init == st = StepAll(S0, Prelude, NoEv).s /\ hist = <<>> /\ ev = NoEv
\* apertures are defined once; region statements are not nested
Guard(c) == /\ c.c = "AD" => c.id \notin DOMAIN st.aps
            /\ c.c = "G36" => ~st.region
            /\ c.c = "G37" => st.region
            /\ c.c \in {"D03", "LP", "Dnn", "AD"} => ~st.region
            /\ (Alphabet = "attr" /\ c.c \in {"D01", "D03"}) => Len(hist) > 1
Next == /\ Len(hist) < Depth /\ ~st.stop
        /\ \E c \in Cmds : /\ Guard(c)
                           /\ LET r == Step(st, c) IN st' = r.s /\ ev' = r.ev
                           /\ hist' = Append(hist, c)
        /\ (Len(hist') = Depth \/ st'.stop) => PrintT(<<"BEHAVIOUR", ToJson(Prelude \o hist')>>)
Spec == Init /\ [][Next]_vars

TypeOK == /\ st.plot \in {"L", "CW", "CCW"} /\ st.quad \in {"SQ", "MQ"} /\ st.pol \in {"D", "C"}
          /\ st.ap # 0 => st.ap \in DOMAIN st.aps
          /\ DOMAIN st.aps = DOMAIN st.apattrs
\* a region draw event happens exactly while a region statement is open
RegionEvents == [][ \A k \in 1..Len(ev') : (ev'[k][1] = "region_draw" => st.region) /\ (ev'[k][1] = "draw" => ~st.region) ]_vars
\* attributes are frozen into an aperture when it is defined
Frozen == [][ \A k \in DOMAIN st.apattrs : st'.apattrs[k] = st.apattrs[k] ]_vars
\* file attributes are never deleted
FileAttrs == [][ DOMAIN st.tf \subseteq DOMAIN st'.tf ]_vars
\* only operations move the current point
PointMoves == [][ <<st.x, st.y>> # <<st'.x, st'.y>> => hist'[Len(hist')].c \in {"D01", "D02", "D03"} ]_vars
\* graphical events carry a coordinate only when a format is set
FormatFirst == [][ \A k \in 1..Len(ev') : (ev'[k][1] \in {"draw", "region_draw"} /\ ev'[k][4] # <<0, 0>>) => st.fs # <<>> ]_vars
=============================================================================
