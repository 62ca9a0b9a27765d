----------------------------- MODULE RvmcBuild ------------------------------
(***************************************************************************)
(* The builder of rendering programs: layers are opened inside of each     *)
(* other, filled, and finished; the image is what the main layer shows.    *)
(* A call is refused (the state stays) or accepted.                        *)
(***************************************************************************)
EXTENDS Layers

W0 == [ls |-> <<>>, locked |-> FALSE, main |-> 0]
NewLayer(id, c, parent) == [id |-> id, fixed |-> c.box # <<>>, box |-> c.box, room |-> c.box, org |-> c.org, objs |-> <<>>, st |-> "open", child |-> 0, parent |-> parent]
OpenIn(w, c) == [w EXCEPT !.ls = Append([w.ls EXCEPT ![c.in].child = Len(w.ls) + 1], NewLayer(c.id, c, c.in))]
\* a layer is what can be pasted: empty layers of unknown size vanish
Sized(l) == IF l.fixed \/ l.objs = <<>> THEN [l EXCEPT !.st = "done"]
            ELSE [l EXCEPT !.st = "done", !.box = BoxOf(l.objs, <<>>), !.room = RoomOf(l.objs, <<>>)]
Nothing(l) == ~l.fixed /\ l.objs = <<>>
Refused(w, c) ==
  CASE c.op = "main" -> w.locked
    [] c.op = "open" -> w.ls[c.in].st = "done" \/ w.ls[c.in].child # 0
    [] c.op = "add" -> w.ls[c.in].st = "done"
    [] c.op = "paste" -> w.ls[c.in].st = "done"
    [] c.op = "close" -> c.l = w.main /\ w.locked
    [] c.op \in {"drop", "get"} -> FALSE
Leave(w, i) == IF w.ls[i].parent = 0 THEN w ELSE [w EXCEPT !.ls[w.ls[i].parent].child = 0]
Call(w, c) ==
  IF Refused(w, c) THEN w ELSE
  CASE c.op = "main" -> [w EXCEPT !.ls = Append(@, NewLayer(Main, c, 0)), !.main = Len(w.ls) + 1]
    [] c.op = "open" -> OpenIn(w, c)
    [] c.op = "add" -> [w EXCEPT !.ls[c.in].objs = Append(@, Kept(c.o))]
    [] c.op = "paste" -> IF Nothing(w.ls[c.src]) THEN w
                         ELSE [w EXCEPT !.ls[c.in].objs = Append(@, Pasted(w.ls[c.src], [id |-> w.ls[c.src].id, at |-> c.at, neg |-> c.neg]))]
    [] c.op = "close" -> [Leave(w, c.l) EXCEPT !.ls[c.l] = Sized(@)]
    [] c.op = "drop" -> [Leave(w, c.l) EXCEPT !.ls[c.l].st = "dropped"]
    [] c.op = "get" -> [w EXCEPT !.locked = TRUE]
MainDone(w) == w.main # 0 /\ w.ls[w.main].st = "done" /\ ~Nothing(w.ls[w.main])
\* the finished main layer as a state of the virtual machine
Shown(w) == IF MainDone(w) THEN [S0 EXCEPT !.lay = Put(<<>>, Main, w.ls[w.main])] ELSE S0
=============================================================================
