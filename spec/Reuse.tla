-------------------------------- MODULE Reuse --------------------------------
(***************************************************************************)
(* Objects that stand for a file keep their settings and nothing else:     *)
(* what an operation returns is a function of the document, the settings   *)
(* in force and the arguments of the operation.  The function is not       *)
(* modelled; its arguments are the key of the operation.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE Head(q) \o "|" \o Join(Tail(q))

New(doc, req) == [doc |-> doc, req |-> req, po |-> "default", co |-> "stop", cm |-> "alpha"]
Set(o, e) == CASE e.op = "parser" -> [o EXCEPT !.po = e.v]
               [] e.op = "compiler" -> [o EXCEPT !.co = e.v]
               [] e.op = "map" -> [o EXCEPT !.cm = e.v]
               [] OTHER -> o
\* what decides the style of a picture: the style given or the file type looked up in the colour map
Style(o, e) == IF e.v # "" THEN <<"style", e.v>> ELSE <<"map", o.cm, o.req>>
Key(o, e) ==
  CASE e.op = "pillow" -> Join(<<"pillow", o.doc, o.po, o.co, e.w>> \o Style(o, e))
    [] e.op = "shapely" -> Join(<<"shapely", o.doc, o.po, o.co>> \o Style(o, e))
    [] e.op = "format" -> Join(<<"format", o.doc, o.po, e.v>>)
    [] e.op = "info" -> Join(<<"info", o.doc>>)
    \* operations on one tree read from the document and on the programs compiled from it
    [] e.op = "tree" -> Join(<<"tree", o.doc, o.po>>)
    [] e.op = "state" -> Join(<<"state", o.doc, o.po>>)
    [] e.op = "lint" -> Join(<<"lint", o.doc, o.po>>)
    [] e.op = "write" -> Join(<<"format", o.doc, o.po, e.v>>)
    [] e.op = "program" -> Join(<<"program", o.doc, o.po, e.v>>)
    [] e.op = "draw" -> Join(<<"draw", o.doc, o.po, e.v, e.w>>)
    [] OTHER -> ""
\* a picture of several files is made of the pictures of the files
RECURSIVE Keys(_, _)
Keys(os, e) == IF os = <<>> THEN "" ELSE Key(Head(os), [op |-> "pillow", v |-> "", w |-> e.w]) \o "&" \o Keys(Tail(os), e)
=============================================================================
