------------------------------ MODULE LayersMC ------------------------------
(* All short programs over two inner layers and the main layer. *)
EXTENDS Layers, TLC, Json
CONSTANTS Depth, Names
VARIABLES s, h
vars == <<s, h>>
R(x, y, w, neg) == [c |-> "shape", o |-> [k |-> "s", t |-> "rect", p |-> <<x, y, w, w>>, segs |-> <<>>, neg |-> neg]]
Cmds ==
  {[c |-> "start", id |-> n, box |-> b, org |-> o] : n \in Names, b \in {<<>>, <<-1000, -1000, 2000, 1000>>}, o \in {<<0, 0>>, <<600, -200>>}}
  \cup {[c |-> "end"], R(0, 0, 1000, FALSE), R(800, 0, 800, TRUE)}
  \cup {[c |-> "paste", id |-> n, at |-> <<1000, 400>>, neg |-> g] : n \in Names, g \in BOOLEAN}
\* main layers are never moved by their origin here
Fine(c) == c.c = "start" /\ c.id = Main => c.org = <<0, 0>>
Init == s = S0 /\ h = <<>>
\* a run ends with its first error: it says nothing about what follows
Next == /\ Len(h) < Depth /\ s.err = ""
        /\ \E c \in Cmds : Fine(c) /\ s' = Step(s, c, FALSE) /\ h' = Append(h, c)
Spec == Init /\ [][Next]_vars

Probe == {<<x, y>> : x \in {-700, 50, 450, 900, 1350, 1750}, y \in {-300, 50, 390, 700}}
StackOpen == \A i \in 1..Len(s.stk) : s.lay[s.stk[i]].st = "open" /\ \A j \in 1..Len(s.stk) : i # j => s.stk[i] # s.stk[j]
OpenOnStack == s.err = "" => \A n \in DOMAIN s.lay : s.lay[n].st = "open" => \E i \in 1..Len(s.stk) : s.stk[i] = n
\* what is dark in a layer sized automatically lies in its box
BoxHolds == \A n \in DOMAIN s.lay : s.lay[n].st = "done" /\ ~s.lay[n].fixed =>
              \A p \in Probe : InBox(p, s.lay[n].box, 1) = OUT => Dark(s.lay[n].objs, p, 1, TRUE) = OUT
\* pasting a layer dark makes dark and pasting it clear makes clear exactly what is dark in it
PasteExact == \A n \in DOMAIN s.lay : s.lay[n].st = "done" =>
                \A p \in Probe :
                  LET c == [id |-> n, at |-> <<0, 0>>, neg |-> FALSE]  o == Pasted(s.lay[n], c)
                      d == Cover(o, p, 1, TRUE)
                  IN /\ d # EDGE => Dark(<<o>>, p, 1, TRUE) = d
                     /\ d = INN => Dark(<<o, [o EXCEPT !.neg = TRUE]>>, p, 1, TRUE) = OUT
                     /\ d = OUT => Dark(<<Kept([t |-> "circ", p |-> <<p[1], p[2], 100>>, segs |-> <<>>, neg |-> FALSE]), [o EXCEPT !.neg = TRUE]>>, p, 1, TRUE) = INN
\* finished layers never change
Frozen == [][\A n \in DOMAIN s.lay : s.lay[n].st \in {"done", "empty"} => s'.lay[n] = s.lay[n]]_vars
EmptyHasNothing == \A n \in DOMAIN s.lay : s.lay[n].st = "empty" => s.lay[n].objs = <<>> /\ ~s.lay[n].fixed
Emit == (s.stk = <<>> /\ (s.err # "" \/ HasImage(s)) /\ Len(h) >= 2) => PrintT(<<"BEHAVIOUR", ToJson(h)>>)
=============================================================================
