------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The formatter as a machine that takes one command at a time and writes  *)
(* it behind a piece of white space.  State [ind, join, fresh]: the        *)
(* indentation of the enclosing blocks (a stack of texts), whether the     *)
(* previous command was written without an asterisk, whether nothing has   *)
(* been written yet.  White space is spelt s, t, n, r.                     *)
(* Options: places, trim, sep (separate G codes from operations), rg54,    *)
(* rg55, expl, strip, lf, split, mend, empty, and the indents mbody,       *)
(* mparam, ab, sr, d1, d2, d3.                                             *)
(***************************************************************************)
EXTENDS Syntax

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE ss[1] \o Concat(SubSeq(ss, 2, Len(ss)))

F0 == [ind |-> <<>>, join |-> FALSE, fresh |-> TRUE, macro |-> FALSE]
Lf(o) == IF o.strip THEN "" ELSE o.lf
Ind(o, x) == IF o.strip THEN "" ELSE x
Removed(c, o) == (c.k = "G54" /\ o.rg54) \/ (c.k = "G55" /\ o.rg55)
IsPrim(k) == k \in {"P0", "P1", "P2", "P4", "P5", "P6", "P7", "P20", "P21", "P22", "Pset"}
Extra(c, o) == CASE c.k = "D01" -> o.d1 [] c.k = "D02" -> o.d2 [] c.k = "D03" -> o.d3 [] OTHER -> ""

\* the indentation in force for this command: closing a block leaves it first
IndAt(s, c) == IF c.k \in {"ABc", "SRc"} /\ s.ind # <<>> THEN SubSeq(s.ind, 1, Len(s.ind) - 1) ELSE s.ind

Pre(s, c, o) ==
  IF s.join THEN ""
  ELSE IF IsPrim(c.k) THEN (IF o.split = "no" THEN "" ELSE Lf(o) \o Ind(o, o.mbody))
  ELSE IF c.k = "AMc" THEN (IF o.mend THEN Lf(o) ELSE "")
  ELSE (IF s.fresh THEN "" ELSE Lf(o))
       \o (IF c.k = "LP" /\ o.empty THEN Lf(o) ELSE "")
       \o Ind(o, Concat(IndAt(s, c)))
       \o Ind(o, Extra(c, o))

\* writes c and returns [s, out]: out is empty or the one pair <<white space, command>>
Put(s, c, o) ==
  IF Removed(c, o) THEN [s |-> [s EXCEPT !.join = FALSE], out |-> <<>>]
  ELSE [ s |-> [ ind |-> CASE c.k = "ABo" -> Append(s.ind, o.ab)
                           [] c.k = "SRo" -> Append(s.ind, o.sr)
                           [] OTHER -> IndAt(s, c),
                 join |-> c.j = 1 /\ ~o.sep, fresh |-> FALSE,
                 macro |-> IF c.k = "AMo" THEN TRUE ELSE IF c.k = "AMc" THEN FALSE ELSE s.macro ],
         out |-> << <<Pre(s, c, o), [c EXCEPT !.j = IF o.sep THEN 0 ELSE c.j]>> >> ]

RECURSIVE PutAll(_, _, _)
PutAll(s, cs, o) == IF cs = <<>> THEN <<>> ELSE LET r == Put(s, cs[1], o) IN r.out \o PutAll(r.s, SubSeq(cs, 2, Len(cs)), o)
Write(cs, o) == PutAll(F0, cs, o)
Cmds(w) == [q \in 1..Len(w) |-> w[q][2]]

\* white space in front of the parameters of a macro primitive
ParamPre(o) == IF o.split = "param" THEN Lf(o) \o Ind(o, o.mparam) \o Ind(o, o.mbody) ELSE ""

\* decimals of a written number under the options
NumText(f, o) == f.t # "n" \/ o.places < 0 \/ (IF o.trim THEN f.w = f.d ELSE f.w = o.places)
=============================================================================
