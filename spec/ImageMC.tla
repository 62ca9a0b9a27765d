------------------------------- MODULE ImageMC ------------------------------
(* Exhaustive exploration of the Gerber machine over a small alphabet of
   commands.  `Guard' is the well-formedness rule of the language (what may
   follow what); every maximal behaviour is printed and later replayed into
   the real pipeline.  Invariants check the machine itself.               *)
EXTENDS GerberImage, Json, TLC

CONSTANTS Alphabet,   \* "prim", "region", "block", "tr"
          Depth

XY(x, y) == [x |-> <<x>>, y |-> <<y>>, i |-> <<>>, j |-> <<>>]
Op(c, x, y) == [c |-> c, x |-> x, y |-> y, i |-> <<>>, j |-> <<>>]
Prelude == << [c |-> "AD", id |-> 10, t |-> "C", p |-> <<600, 0>>],
              [c |-> "AD", id |-> 11, t |-> "R", p |-> <<1000, 600, 0>>],
              [c |-> "Dnn", id |-> 10], [c |-> "G01"] >>

P1 == Op("D02", <<-1000>>, <<0>>)
Prim == { Op("D02", <<0>>, <<500>>), Op("D02", <<-1000>>, <<>>), Op("D01", <<1000>>, <<>>), Op("D01", <<>>, <<900>>),
          [Op("D01", <<500>>, <<0>>) EXCEPT !.i = <<0>>, !.j = <<-500>>],
          Op("D03", <<0>>, <<0>>), Op("D03", <<>>, <<700>>),
          [c |-> "Dnn", id |-> 10], [c |-> "Dnn", id |-> 11],
          [c |-> "LP", v |-> "D"], [c |-> "LP", v |-> "C"], [c |-> "G01"], [c |-> "G02"], [c |-> "M02"] }
Reg == { [c |-> "G36"], [c |-> "G37"], Op("D02", <<-1000>>, <<-1000>>), Op("D02", <<500>>, <<>>), Op("D01", <<1000>>, <<-1000>>),
         Op("D01", <<0>>, <<1000>>), Op("D01", <<-1000>>, <<-1000>>), [c |-> "LP", v |-> "C"], [c |-> "LP", v |-> "D"],
         Op("D03", <<0>>, <<0>>) }
Blk == { [c |-> "ABO", id |-> 20], [c |-> "ABC"], [c |-> "Dnn", id |-> 20], [c |-> "Dnn", id |-> 11], [c |-> "SRC"],
         [c |-> "SRO", nx |-> 2, ny |-> 1, dx |-> 1200, dy |-> 0], [c |-> "SRO", nx |-> 1, ny |-> 3, dx |-> 0, dy |-> 900],
         Op("D03", <<0>>, <<0>>), Op("D03", <<500>>, <<>>), Op("D02", <<1000>>, <<300>>), [c |-> "LP", v |-> "C"], [c |-> "LP", v |-> "D"] }
Trs == { [c |-> "LM", v |-> "X"], [c |-> "LM", v |-> "N"], [c |-> "LR", v |-> 30], [c |-> "LR", v |-> 90], [c |-> "LS", sn |-> 2, sd |-> 1],
         [c |-> "LS", sn |-> 1, sd |-> 2], [c |-> "Dnn", id |-> 11], Op("D03", <<0>>, <<0>>), Op("D03", <<1500>>, <<>>), Op("D01", <<1000>>, <<800>>),
         [c |-> "ABO", id |-> 20], [c |-> "ABC"], [c |-> "Dnn", id |-> 20] }
Cmds == CASE Alphabet = "prim" -> Prim [] Alphabet = "region" -> Reg [] Alphabet = "block" -> Blk [] Alphabet = "tr" -> Trs

VARIABLES st, hist
vars == <<st, hist>>

RECURSIVE Run(_, _)
Run(s, cs) == IF cs = <<>> THEN s ELSE Run(Step(s, Head(cs)), Tail(cs))

Init == st = Run(Init0, Prelude) /\ hist = <<>>

OpenAB(s, id) == \E k \in 1..Len(s.stk) : s.stk[k].k = "AB" /\ s.stk[k].id = id
Guard(s, c) ==
  /\ (c.c = "D01") => /\ \/ s.region
                         \/ s.ap \in DOMAIN s.aps /\ s.aps[s.ap].t = "C"
                      /\ (s.plot = "L") => <<Opt(c.x, s.x), Opt(c.y, s.y)>> # <<s.x, s.y>> /\ c.i = <<>>
                      /\ (s.plot # "L") => c.i # <<>> /\ s.x = 0 /\ s.y = 500 \* keeps the arc on its circle
  /\ (c.c = "D03") => ~s.region /\ s.ap \in DOMAIN s.aps
  /\ (c.c = "G36") => ~s.region
  /\ (c.c = "G37") => s.region
  /\ (c.c \in {"LP", "LM", "LR", "LS", "Dnn", "ABO", "ABC", "SRO", "SRC"}) => ~s.region
  /\ (c.c = "Dnn") => c.id \in DOMAIN s.aps
  /\ (c.c = "ABO") => ~OpenAB(s, c.id) /\ c.id \notin DOMAIN s.aps /\ Len(s.stk) = 0
  /\ (c.c = "ABC") => Len(s.stk) > 0 /\ s.stk[Len(s.stk)].k = "AB"
  /\ (c.c = "SRO") => Len(s.stk) = 0
  /\ (c.c = "SRC") => Len(s.stk) > 0 /\ s.stk[Len(s.stk)].k = "SR"
  \* a contour starts with a move
  /\ (s.region /\ s.contour = <<>> /\ c.c = "D01") => Len(hist) > 0 /\ hist[Len(hist)].c = "D02"

Closed(s) == ~s.region /\ Len(s.stk) = 0

Next ==
  /\ Len(hist) < Depth
  /\ \E c \in Cmds : Guard(st, c) /\ st' = Step(st, c) /\ hist' = Append(hist, c)
  /\ (Closed(st') /\ Len(st'.objs) > 0 /\ Len(hist') >= Depth - 1 /\ hist'[Len(hist')].c \in {"D01", "D03", "G37", "SRC", "M02"})
       => PrintT(<<"BEHAVIOUR", ToJson(Prelude \o hist')>>)

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ invariants
TypeOK == /\ st.pol \in {DARK, CLEAR} /\ st.plot \in {"L", "CW", "CCW"}
          /\ Len(st.stk) <= 1 /\ st.ap \in DOMAIN st.aps
\* a contour is only pending inside a region statement
ContourInv == st.contour # <<>> => st.region
\* painting order: the last object that covers a point decides it
Probe == { <<0, 0>>, <<500, 0>>, <<-1000, 500>>, <<0, 700>>, <<1200, 0>> }
LastWriter ==
  \A p \in Probe :
    LET cov == { k \in 1..Len(st.objs) : Eff(st.objs[k], p, 5) \in {DARK, CLEAR} }
        unk == { k \in 1..Len(st.objs) : Eff(st.objs[k], p, 5) = UNK }
    IN unk = {} => Image(st.objs, p, 5) =
         (IF cov = {} THEN 0 ELSE
          LET k == CHOOSE k \in cov : \A j \in cov : j <= k IN IF Eff(st.objs[k], p, 5) = DARK THEN 1 ELSE 0)
\* an image without clear objects only grows: everything painted stays
Monotone == [][ (\A k \in 1..Len(st'.objs) : st'.objs[k].k # "group" /\ st'.objs[k].pol = DARK) /\ Len(st.stk) = Len(st'.stk) =>
                \A p \in Probe : Image(st.objs, p, 5) = 1 => Image(st'.objs, p, 5) = 1 ]_vars
\* after the end of the program nothing changes
StopFinal == [][ st.stop => st' = st ]_vars
=============================================================================
