--------------------------------- MODULE Lsp ---------------------------------
(***************************************************************************)
(* What the language server answers about one version of a document.  A    *)
(* version is a sequence of units: commands of the graphics state machine, *)
(* openings and closings of blocks (ABo, ABc, SRo, SRc) and text that is   *)
(* not a command yet (JUNK), each with its place and text.                 *)
(***************************************************************************)
EXTENDS GState

\* the state before a unit; incorrect commands are skipped, but nothing is promised after them
F0 == [s |-> S0, blocks |-> <<>>, bad |-> FALSE]
Flat(f, u) ==
  CASE u.c = "ABo" -> [f EXCEPT !.blocks = <<u.id>> \o @]
    [] u.c = "ABc" -> [f EXCEPT !.blocks = Tail(@), !.s.aps = Put(@, Head(f.blocks), "B"), !.s.apattrs = Put(@, Head(f.blocks), f.s.ta)]
    [] u.c \in {"SRo", "SRc", "JUNK"} -> f
    [] OTHER -> LET n == Step(f.s, u).s IN IF n.err THEN [f EXCEPT !.bad = TRUE] ELSE [f EXCEPT !.s = n]
RECURSIVE Run(_, _, _)
Run(f, units, k) == IF k = 0 THEN f ELSE Flat(Run(f, units, k - 1), units[k])
Before(units, k) == Run(F0, units, k - 1)
\* the end of the program does not hide apertures from completion
NoStop(units) == [k \in 1..Len(units) |-> IF units[k].c \in {"M00", "M02"} THEN [units[k] EXCEPT !.c = "JUNK"] ELSE units[k]]
Whole(units) == Run(F0, NoStop(units), Len(units))

PairSet(q) == {q[k] : k \in 1..Len(q)}
Pairs2(f) == {<<k, f[k]>> : k \in DOMAIN f}

\* the unit at a position: 0 between units and where units touch
At(units, line, ch) ==
  LET here == {k \in 1..Len(units) : units[k].line = line /\ units[k].col <= ch /\ ch <= units[k].col + units[k].len}
  IN IF Cardinality(here) = 1 THEN CHOOSE k \in here : TRUE ELSE 0
Inside(u, line, ch) == u.line = line /\ u.col <= ch /\ ch < u.col + u.len

Plain == {"FS", "MO", "G01", "G02", "G03", "G74", "G75", "G36", "G37", "LP", "LM", "LR", "LS", "AD", "Dnn", "D01", "D02", "D03", "TA", "TO", "TF", "TD", "G04"}

\* "" if the answer is right, else what is wrong with it
HoverDraw(s, u, a) ==
  IF a.start # (IF u.c = "D01" THEN <<s.x, s.y>> ELSE <<>>) THEN "start point"
  ELSE IF a.stop # <<Opt(u.x, s.x), Opt(u.y, s.y)>> THEN "end point"
  ELSE IF a.center # (IF u.c = "D01" /\ s.plot # "L" /\ s.quad = "MQ" THEN <<s.x + Opt(u.i, 0), s.y + Opt(u.j, 0)>> ELSE <<>>) THEN "arc center"
  ELSE IF u.c = "D02" THEN ""
  ELSE IF a.ap # s.ap THEN "aperture"
  ELSE IF a.plot # s.plot THEN "plot mode"
  ELSE IF a.quad # (IF s.plot = "L" THEN "" ELSE s.quad) THEN "quadrant mode"
  ELSE IF a.pol # s.pol THEN "polarity"
  ELSE IF <<a.mir, a.rot, a.scale>> # <<s.mir, s.rot, s.scale>> THEN "transform"
  ELSE IF PairSet(a.apattrs) # (IF s.ap \in DOMAIN s.apattrs THEN Pairs2(s.apattrs[s.ap]) ELSE {}) THEN "aperture attributes"
  ELSE IF PairSet(a.to) # Pairs2(s.to) THEN "object attributes"
  ELSE IF a.image \notin {"same", "unjudged"} THEN "picture " \o a.image
  ELSE ""
HoverSelect(s, u, a) ==
  IF PairSet(a.apattrs) # (IF u.id \in DOMAIN s.apattrs THEN Pairs2(s.apattrs[u.id]) ELSE {}) THEN "aperture attributes"
  ELSE IF PairSet(a.to) # Pairs2(s.to) THEN "object attributes"
  ELSE IF a.image \notin {"same", "unjudged"} THEN "picture " \o a.image
  ELSE ""
Hover(units, q, a) ==
  LET k == At(units, q.line, q.ch) IN
  IF k = 0 THEN ""
  ELSE LET u == units[k] f == Before(units, k) IN
    IF u.c \notin Plain \/ ~Inside(u, q.line, q.ch) THEN ""
    ELSE IF a.null THEN "no hover over " \o u.text
    ELSE IF a.range # <<u.line, u.col, u.line, u.col + u.len>> THEN "range"
    ELSE IF u.c \in {"D01", "D02", "D03", "Dnn"} /\ a.code # u.text THEN "code of the command"
    ELSE IF f.bad \/ f.s.stop \/ f.s.fs = <<>> THEN ""
    ELSE IF u.c \in {"D01", "D02", "D03"} THEN HoverDraw(f.s, u, a)
    ELSE IF u.c = "Dnn" THEN HoverSelect(f.s, u, a)
    ELSE ""
GCodes == {"G01", "G02", "G03", "G04", "G36", "G37", "G54", "G55", "G74", "G75", "G90", "G91"}
Completion(units, q, a) ==
  LET k == At(units, q.line, q.ch) IN
  IF k = 0 THEN ""
  ELSE LET u == units[k] f == Whole(units) IN
    IF u.c \in Plain THEN (IF ~a.null /\ Inside(u, q.line, q.ch) THEN "completion offered inside " \o u.text ELSE "")
    ELSE IF u.c # "JUNK" THEN ""
    ELSE IF a.null THEN "no completion for " \o u.text
    ELSE CASE u.t = "G" -> IF PairSet(a.gcodes) # GCodes THEN "G codes offered" ELSE ""
           [] u.t = "D" -> IF ~f.bad /\ PairSet(a.aps) # {<<i, f.s.aps[i]>> : i \in DOMAIN f.s.aps} THEN "apertures offered" ELSE ""
           [] u.t = "%" -> IF Cardinality(PairSet(a.codes)) # 1 THEN "codes offered for a new aperture"
                           ELSE IF ~f.bad /\ (\E c \in PairSet(a.codes) : c < 10 \/ c \in DOMAIN f.s.aps) THEN "code offered is not free" ELSE ""
           [] OTHER -> IF a.n # 0 THEN "completions offered for " \o u.text ELSE ""
Judge(units, q, a) ==
  IF a.err # "" THEN "error " \o a.err
  ELSE IF q.kind = "hover" THEN Hover(units, q, a) ELSE Completion(units, q, a)
=============================================================================
