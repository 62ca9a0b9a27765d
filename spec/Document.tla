------------------------------ MODULE Document ------------------------------
(***************************************************************************)
(* What reading a document means: the tree of commands, the position of    *)
(* every command, the order in which a visitor meets them, the command at  *)
(* a position, and how far the strict, prefix and resilient modes read a   *)
(* document with unreadable lines in it.                                   *)
(***************************************************************************)
EXTENDS Syntax, FiniteSets

-----------------------------------------------------------------------------
\* Tree: the depth of every command (block delimiters belong to the block)
Opens(k) == k \in {"ABo", "SRo", "AMo"}
Closes(k) == k \in {"ABc", "SRc", "AMc"}
RECURSIVE DepthFrom(_, _)
DepthFrom(cs, d) == IF cs = <<>> THEN <<>>
                    ELSE LET c == cs[1]
                             here == IF Opens(c.k) THEN d + 1 ELSE d
                             next == IF Opens(c.k) THEN d + 1 ELSE IF Closes(c.k) THEN d - 1 ELSE d
                         IN <<here>> \o DepthFrom(SubSeq(cs, 2, Len(cs)), next)
Depths(cs) == DepthFrom(cs, 0)

\* Positions: offset -> one based line and column, nl the offsets of line feeds
Line(off, nl) == 1 + Cardinality({q \in 1..Len(nl) : nl[q] < off})
Column(off, nl) == LET before == {q \in 1..Len(nl) : nl[q] < off}
                   IN IF before = {} THEN off + 1 ELSE off - nl[Cardinality(before)]

-----------------------------------------------------------------------------
\* Visits
StdNames == {".AperFunction", ".DrillTolerance", ".FlashText", ".Part", ".FileFunction", ".FilePolarity", ".SameCoordinates",
             ".CreationDate", ".GenerationSoftware", ".ProjectId", ".MD5", ".N", ".P", ".C", ".CRot", ".CMfr", ".CMPN", ".CVal",
             ".CMnt", ".CFtp", ".CPgN", ".CPgD", ".CHgt", ".CLbN", ".CLbD", ".CSup"}
Attr(c) == IF c.f[1].s \in StdNames THEN c.k \o c.f[1].s ELSE c.k \o "user"
Letters == <<"X", "Y", "I", "J">>
RECURSIVE CoordEvents(_, _), LeafEvents(_), FieldEvents(_)
CoordEvents(f, q) == IF q > Len(f) THEN <<>>
                     ELSE (IF Absent(f[q]) THEN <<>> ELSE << <<Letters[q], f[q].s>> >>) \o CoordEvents(f, q + 1)
LeafEvents(e) == IF e = <<>> THEN <<>>
                 ELSE (IF e[1][1] = "o" THEN <<>> ELSE << <<e[1][1], "">> >>) \o LeafEvents(SubSeq(e, 2, Len(e)))
FieldEvents(f) == IF f = <<>> THEN <<>>
                  ELSE (IF f[1].t = "e" THEN LeafEvents(f[1].e) ELSE <<>>) \o FieldEvents(SubSeq(f, 2, Len(f)))
\* the callbacks for one command, in order
Visits(c) ==
  CASE c.k \in {"D01", "D02", "D03"} -> << <<c.k, "">> >> \o CoordEvents(c.f, 1)
    [] c.k \in {"ADC", "ADR", "ADO", "ADP", "ADM"} -> << <<c.k, "">>, <<"AD", "">> >>
    [] c.k \in {"TA", "TF", "TO"} -> << <<Attr(c), "">>, <<c.k, "">> >>
    [] c.k = "Pset" -> << <<"Pset", "">>, <<"v", "">> >> \o FieldEvents(c.f)
    [] c.k \in {"P1", "P2", "P4", "P5", "P6", "P7", "P20", "P21", "P22"} -> << <<c.k, "">> >> \o FieldEvents(c.f)
    [] OTHER -> << <<c.k, "">> >>

-----------------------------------------------------------------------------
\* Lookup: starts are <<line, column>> of the commands in document order; the
\* command at a position is the last one that starts at or before it, 0 if none
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
\* Strictly inside a command (on the line it starts on) the answer must be that command;
\* elsewhere it may also be "none", but never a command that starts after the position
\* nor one that another command was begun after.
Inside(start, stop, p) == Before(start, p) /\ ~Before(stop, p) /\ p[1] = start[1]
Find(starts, p) == LET ok == {q \in 1..Len(starts) : Before(starts[q], p)}
                   IN IF ok = {} THEN 0 ELSE CHOOSE q \in ok : \A r \in ok : r <= q

-----------------------------------------------------------------------------
\* Reading modes.  Items are commands ("cmd") or unreadable lines ("junk").
FirstJunk(items) == IF \E q \in 1..Len(items) : items[q] = "junk"
                    THEN CHOOSE q \in 1..Len(items) : items[q] = "junk" /\ \A r \in 1..(q - 1) : items[r] # "junk"
                    ELSE Len(items) + 1
Strict(items) == IF items = <<>> \/ FirstJunk(items) <= Len(items) THEN "error" ELSE "all"
\* number of items the prefix mode returns (a document that starts unreadable is an error)
Prefix(items) == FirstJunk(items) - 1
Resilient(items) == items
=============================================================================
