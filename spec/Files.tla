-------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* What a Gerber file is (its type), which colours it is drawn in, and how *)
(* a job file sorts files into views of a project.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Functions == {"COPPER", "PLATED", "NON_PLATED", "PROFILE", "SOLDERMASK", "LEGEND", "COMPONENT", "PASTE", "GLUE", "CARBONMASK", "GOLDMASK",
  "HEATSINKMASK", "PEELABLEMASK", "SILVERMASK", "TINMASK", "DEPTHROUT", "VCUT", "VIAFILL", "PADS", "OTHER", "DRILLMAP", "FABRICATIONDRAWING",
  "VCUTMAP", "ASSEMBLYDRAWING", "ARRAYDRAWING", "OTHERDRAWING"}
Types == Functions \cup {"MASK", "SILK", "EDGE", "UNDEFINED"}
Requests == {"INFER", "INFER_FROM_EXTENSION", "INFER_FROM_ATTRIBUTES"}

\* ------------------------------------------------------------ extensions --
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Fold(c) == CASE c = "G" -> "g" [] c = "T" -> "t" [] c = "B" -> "b" [] c = "L" -> "l" [] c = "S" -> "s" [] c = "O" -> "o"
             [] c = "P" -> "p" [] c = "M" -> "m" [] c = "R" -> "r" [] OTHER -> c
RECURSIVE Text(_)
Text(q) == IF q = <<>> THEN "" ELSE Fold(q[1]) \o Text(Tail(q))
Numbered(e, stem) == \* the stem followed by digits only
  Len(e) > Len(stem) /\ (\A i \in 1..Len(stem) : Fold(e[i]) = stem[i]) /\ \A i \in (Len(stem) + 1)..Len(e) : e[i] \in Digits
ByExtension(e) ==
  IF Numbered(e, <<".", "g">>) \/ Numbered(e, <<".", "g", "p">>) \/ Numbered(e, <<".", "g", "m">>) THEN "COPPER"
  ELSE LET x == Text(e) IN
    CASE x \in {".gtl", ".gbl"} -> "COPPER" [] x \in {".gto", ".gbo"} -> "SILK" [] x \in {".gpt", ".gpb"} -> "PADS"
      [] x \in {".gts", ".gbs"} -> "SOLDERMASK" [] x \in {".gtp", ".gbp"} -> "PASTE"
      [] x \in {".grb", ".gbr"} -> "INFER_FROM_ATTRIBUTES" [] OTHER -> "UNDEFINED"

\* ------------------------------------------------------------- file type --
\* f: request (or a type), source ("file", "string", "buffer"), extension, function told by the file ("" if none)
ByAttributes(f) == IF f.func \in Functions THEN f.func ELSE "UNDEFINED"
TypeOf(f) ==
  CASE f.req \notin Requests -> f.req
    [] f.req = "INFER_FROM_ATTRIBUTES" -> ByAttributes(f)
    [] f.source # "file" -> IF f.req = "INFER" THEN ByAttributes(f) ELSE "UNDEFINED"
    [] OTHER -> LET e == ByExtension(f.ext)
                IN IF e = "INFER_FROM_ATTRIBUTES" \/ (e = "UNDEFINED" /\ f.req = "INFER") THEN ByAttributes(f) ELSE e

\* ---------------------------------------------------------------- colours --
\* what is drawn: an explicit style, or the colour map in force applied to the type
Drawn(f, map, e) == IF e.style THEN <<"style", "">> ELSE <<map, TypeOf(f)>>

\* --------------------------------------------------------------- projects --
\* entry: function (upper case), side ("TOP", "BOT", ""), layer number (0 if none), file
Kind(e) == CASE e.func = "SOLDERPASTE" -> "PASTE" [] e.func = "NONPLATED" -> "NON_PLATED" [] e.func \in Types -> e.func [] OTHER -> "UNDEFINED"
BottomUp == <<"COPPER", "MASK", "SOLDERMASK", "PASTE", "SILK", "LEGEND", "PROFILE">>
\* views are numbered: 0 top, n inner layer n, -1 bottom
Belongs(e, v) == CASE Kind(e) = "PROFILE" -> TRUE
                   [] v = 0 -> e.side = "TOP"
                   [] v = -1 -> e.side = "BOT"
                   [] OTHER -> e.side = "" /\ e.layer = v
Pick(es, v, k) == SelectSeq(es, LAMBDA e : Belongs(e, v) /\ Kind(e) = k)
RECURSIVE Collect(_, _, _)
Collect(es, v, i) == IF i > Len(BottomUp) THEN <<>>
                     ELSE LET q == Pick(es, v, BottomUp[i]) n == Len(q)
                          IN (IF n = 0 THEN <<>> ELSE << <<q[n].file, BottomUp[i]>> >>) \o Collect(es, v, i + 1)
View(es, v) == Collect(es, v, 1)
InnerLayers(es) == {es[i].layer : i \in {j \in 1..Len(es) : es[j].side = "" /\ es[j].layer # 0 /\ Kind(es[j]) # "PROFILE"}}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Inner(es) == LET q == Sorted(InnerLayers(es)) IN [i \in 1..Len(q) |-> View(es, q[i])]
=============================================================================
