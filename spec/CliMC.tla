-------------------------------- MODULE CliMC --------------------------------
(* All argument lists up to a length over a small set of arguments. *)
EXTENDS Cli, TLC, Json
CONSTANT Size
A(o, v, f) == [o |-> o, v |-> v, form |-> f, list |-> <<>>]
Files == {"a", "b"}
Args == {A("source", "a", "op"), A("output", "x", "path"), A("type", "NON_PLATED", "name"), A("type", "INFER_FROM_ATTRIBUTES", "name"), A("style", "CUSTOM", "name"),
         A("style", "SILK", "name"), A("fg", "FF0000", "hex"), A("bg", "nope", "word"), A("bg", "00FF0080", "hex"), A("dpmm", "5", "int"), A("dpmm", "x", "word")}
VARIABLES args, s
vars == <<args, s>>
C == "convert png"
Init == args = <<>> /\ s = Fresh
Next == Len(args) < Size /\ \E a \in Args : args' = Append(args, a) /\ s' = Read(C, s, a)
Spec == Init /\ [][Next]_vars
RECURSIVE Fold(_, _)
Fold(q, x) == IF q = <<>> THEN x ELSE Fold(Tail(q), Read(C, x, Head(q)))
Out(q) == Outcome(C, Fold(q, Fresh), Files)
Swap(q, i) == [k \in 1..Len(q) |-> IF k = i THEN q[i + 1] ELSE IF k = i + 1 THEN q[i] ELSE q[k]]
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
\* different options commute
OrderFree == \A i \in 1..(Len(args) - 1) : args[i].o # args[i + 1].o => Out(Swap(args, i)) = Out(args)
\* an option given twice counts as given once, with the last value
LastWins == \A i, j \in 1..Len(args) : (i < j /\ args[i].o = args[j].o /\ args[i].o # "source") => Out(Drop(args, i)) = Out(args)
\* colours matter only for the custom style
ColoursOnlyCustom == (s.style.v # "CUSTOM") => Out(SelectSeq(args, LAMBDA a : a.o \notin {"fg", "bg"})) = Out(args)
\* the output path never changes what is written
OutputIndependent == Out(SelectSeq(args, LAMBDA a : a.o # "output")) = Out(args)
Emit == IF s.sources # <<>> /\ Len(args) = Size THEN PrintT(<<"BEHAVIOUR", ToJson(args)>>) ELSE TRUE
=============================================================================
