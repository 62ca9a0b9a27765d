---------------------------- MODULE RvmcBuildMC -----------------------------
(* All short uses of the builder; a writer that emits commands of the virtual
   machine must give the image the calls stand for.                          *)
EXTENDS RvmcBuild, TLC
CONSTANT Depth
VARIABLES w, n, buf, out
vars == <<w, n, buf, out>>
R(x, neg) == [k |-> "s", t |-> "rect", p |-> <<x, 0, 1000, 1000>>, segs |-> <<>>, neg |-> neg]
Box1 == <<-1000, -1000, 2000, 1000>>
Open == {i \in 1..Len(w.ls) : w.ls[i].st = "open"}
Idle == {i \in Open : w.ls[i].child = 0}
Calls ==
  (IF w.main = 0 THEN {[op |-> "main", box |-> b, org |-> <<0, 0>>] : b \in {<<>>, Box1}} ELSE {})
  \cup {[op |-> "open", in |-> i, id |-> ToString(Len(w.ls)), box |-> b, org |-> <<600, -200>>] : i \in 1..Len(w.ls), b \in {<<>>, Box1}}
  \cup {[op |-> "add", in |-> i, o |-> R(x, g)] : i \in 1..Len(w.ls), x \in {0}, g \in BOOLEAN}
  \cup {[op |-> "paste", in |-> i, src |-> j, at |-> <<1000, 400>>, neg |-> FALSE] : i \in 1..Len(w.ls), j \in {q \in 1..Len(w.ls) : w.ls[q].st = "done"}}
  \cup {[op |-> o, l |-> i] : o \in {"close", "drop"}, i \in Idle}
  \cup {[op |-> "get"]}
\* writer: one buffer of commands per layer, flushed into the parent when closed
Write(c) ==
  IF Refused(w, c) THEN buf
  ELSE CASE c.op = "main" -> Append(buf, <<[c |-> "start", id |-> Main, box |-> c.box, org |-> c.org]>>)
         [] c.op = "open" -> Append(buf, <<[c |-> "start", id |-> c.id, box |-> c.box, org |-> c.org]>>)
         [] c.op = "add" -> [buf EXCEPT ![c.in] = Append(@, [c |-> "shape", o |-> c.o])]
         [] c.op = "paste" -> [buf EXCEPT ![c.in] = Append(@, [c |-> "paste", id |-> w.ls[c.src].id, at |-> c.at, neg |-> c.neg])]
         [] c.op = "close" /\ w.ls[c.l].parent # 0 -> [buf EXCEPT ![w.ls[c.l].parent] = @ \o buf[c.l] \o <<[c |-> "end"]>>]
         [] OTHER -> buf
Final(c) == IF c.op = "close" /\ ~Refused(w, c) /\ c.l = w.main THEN buf[c.l] \o <<[c |-> "end"]>> ELSE out
Init == w = W0 /\ n = 0 /\ buf = <<>> /\ out = <<>>
Next == n < Depth /\ \E c \in Calls : w' = Call(w, c) /\ n' = n + 1 /\ buf' = Write(c) /\ out' = Final(c)
Spec == Init /\ [][Next]_vars
RECURSIVE Exec(_, _)
Exec(s, cs) == IF cs = <<>> THEN s ELSE Exec(Step(s, cs[1], FALSE), Tail(cs))
Probe == {<<x, y>> : x \in {-300, 100, 700, 900, 1300}, y \in {-390, 100, 650}}
Agree == out # <<>> =>
  LET z == Finish(Exec(S0, out), FALSE)
  IN z.err = "" /\ \A p \in Probe : ImageAt(z, p, 1, TRUE) = ImageAt(Shown(w), p, 1, TRUE)
OneChild == \A i \in 1..Len(w.ls) : Cardinality({j \in Open : w.ls[j].parent = i}) <= 1
LockedFinal == [][w.locked => w'.locked /\ (w'.main # 0 => w.main # 0)]_vars
DoneFrozen == [][\A i \in 1..Len(w.ls) : w.ls[i].st = "done" => w'.ls[i] = w.ls[i]]_vars
=============================================================================
