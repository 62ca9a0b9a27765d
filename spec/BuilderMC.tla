------------------------------ MODULE BuilderMC ------------------------------
(* All short histories of calls on a builder that writes only the state
   changes that are needed: what it has written, interpreted from scratch,
   is what was asked for.                                                  *)
EXTENDS Builder, TLC
CONSTANT Depth
VARIABLES n, b, w, out
vars == <<n, b, w, out>>
Txt(s) == [NoField EXCEPT !.t = "s", !.s = s]
Cm(k, f) == [k |-> k, j |-> 0, f |-> f, c |-> <<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>>>]
At(k, x, y) == [Cm(k, <<>>) EXCEPT !.c = <<<<1, x>>, <<1, y>>, <<0, 0>>, <<0, 0>>>>]
Around(x, y, i, j) == [Cm("D01", <<>>) EXCEPT !.c = <<<<1, x>>, <<1, y>>, <<1, i>>, <<1, j>>>>]
Id(q) == IF q = 1 THEN "D10" ELSE IF q = 2 THEN "D11" ELSE "D12"
Two == NumField(2, 0)
Shapes == <<[k |-> "ADR", j |-> 0, f |-> <<NoField, Two, NumField(3, 0), NoField>>]>>
\* what the writer remembers; D11 and D12 are strokes of width 1 and 2
W0 == [ap |-> "", pol |-> "D", rot |-> Zero, mir |-> "N", sc |-> One, mode |-> "", at |-> <<>>]
Preamble == <<Cm("FS", <<>>), Cm("MO", <<Txt("MM")>>),
          [Cm("ADR", <<Txt("D10"), Two, NumField(3, 0), NoField>>) EXCEPT !.j = 0],
          Cm("ADC", <<Txt("D11"), NumField(1, 0), NoField>>), Cm("ADC", <<Txt("D12"), Two, NoField>>), Cm("G75", <<>>)>>
Need(x, ap, pol, rot, mir, sc, mode) ==
  (IF x.ap # ap THEN <<Cm("Dnn", <<Txt(ap)>>)>> ELSE <<>>) \o (IF x.pol # pol THEN <<Cm("LP", <<Txt(pol)>>)>> ELSE <<>>)
  \o (IF x.rot # V(rot) THEN <<Cm("LR", <<rot>>)>> ELSE <<>>) \o (IF x.mir # mir THEN <<Cm("LM", <<Txt(mir)>>)>> ELSE <<>>)
  \o (IF x.sc # V(sc) THEN <<Cm("LS", <<sc>>)>> ELSE <<>>) \o (IF mode # "" /\ x.mode # mode THEN <<Cm(mode, <<>>)>> ELSE <<>>)
Pts == {<<0, 0>>, <<2, 0>>}
Nat0 == NumField(0, 0)
Nat1 == NumField(1, 0)
FlashCall == \E pol \in {"D", "C"}, at \in Pts, rot \in {Nat0, NumField(90, 0)}, sc \in {Nat1, Two} :
  LET c == [op |-> "flash", pad |-> 1, pol |-> pol, at |-> [r |-> 0, x |-> at[1], y |-> at[2]], rot |-> rot, mir |-> "N", sc |-> sc]
  IN /\ b' = Do(b, c)
     /\ out' = out \o Need(w, "D10", pol, rot, "N", sc, "") \o <<At("D03", at[1], at[2])>>
     /\ w' = [w EXCEPT !.ap = "D10", !.pol = pol, !.rot = V(rot), !.sc = V(sc), !.at = at]
TrackCall == \E m \in {"G01", "G02"}, p \in Pts, q \in Pts, wd \in {1, 2} :
  LET c == [op |-> "track", w |-> NumField(wd, 0), m |-> m, b |-> [r |-> 0, x |-> p[1], y |-> p[2]], e |-> [r |-> 0, x |-> q[1], y |-> q[2]], c |-> <<1, 1>>]
  IN /\ b' = Do(b, c)
     /\ out' = out \o Need(w, Id(wd + 1), "D", Nat0, "N", Nat1, m) \o (IF w.at = p THEN <<>> ELSE <<At("D02", p[1], p[2])>>)
                   \o <<IF m = "G01" THEN At("D01", q[1], q[2]) ELSE Around(q[1], q[2], 1 - p[1], 1 - p[2])>>
     /\ w' = [W0 EXCEPT !.ap = Id(wd + 1), !.mode = m, !.at = q]
RegionCall == \E m \in {"G01", "G03"} :
  LET c == [op |-> "region", b |-> <<0, 0>>, segs |-> <<[m |-> "G01", e |-> <<2, 0>>, c |-> <<0, 0>>], [m |-> "G01", e |-> <<2, 2>>, c |-> <<0, 0>>],
                                                       [m |-> m, e |-> <<0, 0>>, c |-> <<1, 1>>]>>]
  IN /\ b' = Do(b, c)
     /\ out' = out \o Need(w, "D11", "D", Nat0, "N", Nat1, "") \o <<Cm("G36", <<>>), At("D02", 0, 0), Cm("G01", <<>>), At("D01", 2, 0), At("D01", 2, 2)>>
                   \o (IF m = "G01" THEN <<At("D01", 0, 0)>> ELSE <<Cm("G03", <<>>), Around(0, 0, -1, -1)>>) \o <<Cm("G37", <<>>)>>
     /\ w' = [W0 EXCEPT !.ap = "D11", !.mode = m, !.at = <<0, 0>>]
Init == n = 0 /\ b = [B0 EXCEPT !.pads = <<[cmd |-> Shapes[1], prims |-> <<>>, attrs |-> {}]>>] /\ w = W0 /\ out = <<>>
Next == n < Depth /\ n' = n + 1 /\ (FlashCall \/ TrackCall \/ RegionCall)
Spec == Init /\ [][Next]_vars

RECURSIVE RunAll(_, _)
RunAll(s, cs) == IF cs = <<>> THEN s ELSE RunAll(Run(s, cs[1]), SubSeq(cs, 2, Len(cs)))
Final == RunAll(I0, Preamble \o out \o <<Cm("M02", <<>>)>>)
WrittenMeansCalled == LET f == Final IN f.bad = "" /\ f.over /\ Len(f.objs) = Len(b.objs)
                      /\ \A q \in 1..Len(b.objs) : SameObj(b.objs[q], b.pads, f.objs[q]) = ""
NothingLost == Len(b.objs) = n
=============================================================================
