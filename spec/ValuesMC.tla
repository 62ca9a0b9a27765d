------------------------------ MODULE ValuesMC ------------------------------
(* Programs of a few operations; laws of the values in the registers. *)
EXTENDS Values, TLC, Json
CONSTANT Depth
VARIABLES regs, prog
vars == <<regs, prog>>
Init == regs = <<>> /\ prog = <<>>
Do(op, a, n) == LET v == Result(op, [i \in 1..Len(a) |-> regs[a[i]]], n) IN
                /\ regs' = Append(regs, v)
                /\ prog' = Append(prog, [op |-> op, a |-> a, n |-> n])
Has(i, ks) == regs[i].k \in ks
Make == \/ \E n \in {<<300, -400>>, <<0, 0>>, <<-150, 100>>} : Do("vector", <<>>, n)
        \/ \E n \in {<<100, -100, 300, 200>>, <<-200, 0, 0, 0>>} : Do("box", <<>>, n)
        \/ Do("nobox", <<>>, <<>>)
        \/ \E n \in {1, 2} : Do("quarter", <<>>, <<n>>)
        \/ Do("turn345", <<>>, <<1>>)
        \/ Do("translate", <<>>, <<50, -100>>)
        \/ Do("scale", <<>>, <<200, 100>>)
        \/ Do("reflect", <<>>, <<1, 0>>)
        \/ \E n \in {<<2, 1>>, <<1, 5>>} : Do("position", <<>>, n)
        \/ \E n \in {<<250, 100, 50, 255>>, <<360, 0, 40, 7>>} : Do("hsv", <<>>, n)
Use == \E i, j \in 1..Len(regs) :
        \/ (Has(i, {"v"}) /\ Has(j, {"v", "b", "e"})) /\ Do("plus", <<i, j>>, <<>>)
        \/ (Has(i, {"b", "e"}) /\ Has(j, {"v", "b", "e"})) /\ Do("plus", <<i, j>>, <<>>)
        \/ (Has(i, {"v", "b", "e"}) /\ Has(j, {"v"})) /\ Do("minus", <<i, j>>, <<>>)
        \/ (Has(i, {"v"}) /\ Has(j, {"v"})) /\ \E op \in {"ccw", "cw", "lt", "ge", "eq", "times"} : Do(op, <<i, j>>, <<>>)
        \/ (Has(i, {"m"}) /\ Has(j, {"m"})) /\ Do("after", <<i, j>>, <<>>)
        \/ (Has(i, {"m"}) /\ Has(j, {"v"})) /\ Do("moved", <<i, j>>, <<>>)
        \/ (i = j /\ Has(i, {"v"})) /\ \E op \in {"unit", "length", "neg"} : Do(op, <<i>>, <<>>)
        \/ (i = j /\ Has(i, {"b", "e"})) /\ Do("center", <<i>>, <<>>)
        \/ (Has(i, {"p"}) /\ Has(j, {"p"})) /\ \E op \in {"lt", "le", "eq", "ne"} : Do(op, <<i, j>>, <<>>)
Next == /\ Len(prog) < Depth
        /\ Make \/ Use
        /\ (Len(prog') = Depth /\ prog'[Depth].a # <<>>) => PrintT(<<"BEHAVIOUR", ToJson(prog')>>)
Spec == Init /\ [][Next]_vars
Of(ks) == {regs[i] : i \in {i \in 1..Len(regs) : regs[i].k \in ks}}
Known(v) == v.k \notin {"?", "~", "o"}
Alike(a, b) == (Known(a) /\ Known(b)) => (a.k = b.k /\ a.q = b.q)
Laws ==
  /\ \A m, n \in Of({"m"}) : \A v \in Of({"v"}) : LET b == Moved(n, v) IN LET p == After(m, n) IN
       (Known(b) /\ Known(p)) => Alike(Moved(p, v), Moved(m, b))
  /\ \A m, n, o \in Of({"m"}) : LET a == After(m, n) IN LET b == After(n, o) IN (Known(a) /\ Known(b)) => Alike(After(a, o), After(m, b))
  /\ \A a, b \in Of({"b", "e"}) : Alike(Union(a, b), Union(b, a)) /\ Alike(Union(a, a), a)
       /\ \A v \in Of({"v"}) : Alike(Shift(Union(a, b), v, 1), Union(Shift(a, v, 1), Shift(b, v, 1))) /\ (Known(Shift(a, v, 1)) => Alike(Shift(Shift(a, v, 1), v, -1), a))
  /\ \A a, b \in Of({"v"}) : Alike(Plus(a, b), Plus(b, a)) /\ (Known(Minus(a, b)) => Alike(Plus(Minus(a, b), b), a))
       /\ (a.q # <<0, 0>> /\ b.q # <<0, 0>>) =>
            LET l == Between(a.q, b.q) IN LET r == Between(b.q, a.q) IN l[1] >= 0 /\ l[2] < 36000 /\ (l = <<0, 0>> => r = l) /\ (l # <<0, 0>> => l[1] + r[2] \in {35999, 36000})
       /\ \A n \in 0..3 : LET x == Moved(Quarter(n), a) IN LET y == Moved(Quarter(n), b) IN
            (Known(x) /\ Known(y) /\ a.q # <<0, 0>> /\ b.q # <<0, 0>>) => Between(x.q, y.q) = Between(a.q, b.q)
  /\ \A a, b \in Of({"p"}) : (Before(a.q, b.q) \/ Before(b.q, a.q)) <=> a.q # b.q
  /\ \A c \in Of({"c"}) : Every(c.q, Channel)
  /\ \A v \in Of({"v"}) : Known(Unit(v)) => Length(Unit(v).q) = 100
=============================================================================
