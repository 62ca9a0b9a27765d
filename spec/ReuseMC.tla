------------------------------- MODULE ReuseMC -------------------------------
(***************************************************************************)
(* The object as it is built: the tree, the compiled program, the final    *)
(* state and the file type are kept once computed and dropped when options *)
(* change.  Every result must be the one the settings alone determine.     *)
(***************************************************************************)
EXTENDS Reuse, TLC, Json, FiniteSets
CONSTANTS Depth
None == "none"
VARIABLES o, tree, prog, final, ftype, h, out
vars == <<o, tree, prog, final, ftype, h, out>>
TreeOf(q) == Join(<<q.doc, q.po>>)
ProgOf(t, co) == Join(<<t, co>>)
TypeOf(t) == "type of " \o t
Init == o = New("d", "infer") /\ tree = None /\ prog = None /\ final = None /\ ftype = "infer" /\ h = <<>> /\ out = <<>>
Log(e) == Len(h) < Depth /\ h' = Append(h, e)
SetParser(v) == LET e == [op |-> "parser", v |-> v, w |-> ""] IN
  /\ Log(e) /\ o' = Set(o, e) /\ tree' = None /\ prog' = None /\ final' = None /\ ftype' = o.req /\ out' = <<>>
SetCompiler(v) == LET e == [op |-> "compiler", v |-> v, w |-> ""] IN
  /\ Log(e) /\ o' = Set(o, e) /\ tree' = None /\ prog' = None /\ final' = None /\ ftype' = o.req /\ out' = <<>>
SetMap(v) == LET e == [op |-> "map", v |-> v, w |-> ""] IN
  /\ Log(e) /\ o' = Set(o, e) /\ UNCHANGED <<tree, prog, final, ftype>> /\ out' = <<>>
GetTree == IF tree = None THEN TreeOf(o) ELSE tree
GetProg == IF prog = None THEN ProgOf(GetTree, o.co) ELSE prog
GetFinal == IF final = None THEN GetTree ELSE final
Picture(op, v, w) ==
  LET infer == v = "" /\ ftype = "infer"
      f == IF infer THEN TypeOf(GetFinal) ELSE ftype
  IN /\ Log([op |-> op, v |-> v, w |-> w])
     /\ tree' = GetTree /\ prog' = GetProg /\ final' = GetFinal /\ ftype' = f /\ UNCHANGED o
     /\ out' = <<GetProg, IF v # "" THEN v ELSE o.cm \o f>>
Format == /\ Log([op |-> "format", v |-> "plain", w |-> ""]) /\ tree' = GetTree /\ UNCHANGED <<o, prog, final, ftype>> /\ out' = <<GetTree>>
Next == \/ \E v \in {"resilient", "prefix"} : SetParser(v)
        \/ SetCompiler("go") \/ SetMap("a")
        \/ Picture("pillow", "", "4") \/ Picture("shapely", "", "") \/ Picture("pillow", "s1", "4") \/ Format
Spec == Init /\ [][Next]_vars
CachesFresh == /\ tree \in {None, TreeOf(o)}
               /\ prog \in {None, ProgOf(TreeOf(o), o.co)}
               /\ final \in {None, TreeOf(o)}
               /\ ftype \in {"infer", TypeOf(TreeOf(o))}
\* the result depends on what the key of the operation names
Last == h[Len(h)]
ResultsFresh == (h # <<>> /\ out # <<>>) =>
  CASE Last.op = "format" -> out = <<TreeOf(o)>>
    [] OTHER -> out = <<ProgOf(TreeOf(o), o.co), IF Last.v # "" THEN Last.v ELSE o.cm \o TypeOf(TreeOf(o))>>
Emit == IF Len(h) = Depth /\ out # <<>> THEN PrintT(<<"BEHAVIOUR", ToJson(h)>>) ELSE TRUE
=============================================================================
