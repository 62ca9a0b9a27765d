------------------------------- MODULE FilesMC ------------------------------
(* A file is described, loaded and drawn; a job file is filled entry by entry. *)
EXTENDS Files, TLC, Json
CONSTANTS Entries
Exts == { <<>>, <<".", "g", "b", "r">>, <<".", "G", "T", "L">>, <<".", "g", "1", "2">>, <<".", "g", "p", "3">>, <<".", "t", "x", "t">>, <<".", "g", "p">>, <<".", "G", "2">>, <<".", "g", "2", "x">> }
Reqs == Requests \cup {"SILK", "COPPER"}
VARIABLES f, map, drawn, job
vars == <<f, map, drawn, job>>
NoFile == [req |-> "", source |-> "", ext |-> <<>>, func |-> ""]
Init == f = NoFile /\ map = "default" /\ drawn = <<>> /\ job = <<>>
Load == /\ f = NoFile /\ job = <<>>
        /\ \E q \in Reqs, s \in {"file", "string", "buffer"}, e \in Exts, n \in {"", "COPPER", "DRILLMAP", "NON_PLATED"} :
             f' = [req |-> q, source |-> s, ext |-> IF s = "file" THEN e ELSE <<>>, func |-> n]
        /\ UNCHANGED <<map, drawn, job>>
SetMap == f # NoFile /\ Len(drawn) < 2 /\ map' \in {"a", "b"} /\ UNCHANGED <<f, drawn, job>>
Draw == /\ f # NoFile /\ Len(drawn) < 2
        /\ \E s \in BOOLEAN : drawn' = Append(drawn, Drawn(f, map, [style |-> s]))
        /\ UNCHANGED <<f, map, job>>
AddEntry == /\ f = NoFile /\ Len(job) < Entries
            /\ \E fn \in {"COPPER", "SOLDERPASTE", "PROFILE", "GLUE"}, sd \in {"TOP", "BOT", ""}, n \in {0, 2, 10} :
                 /\ \A i \in 1..Len(job) : <<job[i].func, job[i].side, job[i].layer>> # <<fn, sd, n>>
                 /\ job' = Append(job, [func |-> fn, side |-> sd, layer |-> n, file |-> Len(job) + 1])
            /\ UNCHANGED <<f, map, drawn>>
Next == Load \/ SetMap \/ Draw \/ AddEntry
Spec == Init /\ [][Next]_vars

Decided == f # NoFile => TypeOf(f) \in Types
ExplicitWins == f # NoFile /\ f.req \notin Requests => TypeOf(f) = f.req
\* how a file was loaded matters only through its extension
SourceIrrelevant == f # NoFile /\ f.req = "INFER" /\ ByExtension(f.ext) \notin Types \ {"UNDEFINED"} => TypeOf(f) = ByAttributes(f)
Case == f # NoFile => ByExtension([i \in 1..Len(f.ext) |-> Fold(f.ext[i])]) = ByExtension(f.ext)
\* drawing decides by the map in force at that time, whatever was drawn before
SameType == \A i, j \in 1..Len(drawn) : drawn[i][1] # "style" /\ drawn[j][1] # "style" => drawn[i][2] = drawn[j][2]

Views == {0, -1} \cup InnerLayers(job)
Shown == {v[1] : v \in UNION {{View(job, w)[i] : i \in 1..Len(View(job, w))} : w \in Views}}
Level(k) == CHOOSE i \in 1..Len(BottomUp) : BottomUp[i] = k
Ordered == \A w \in Views : LET v == View(job, w) IN \A i, j \in 1..Len(v) : i < j => Level(v[i][2]) < Level(v[j][2])
ProfileEverywhere == \A i \in 1..Len(job) : Kind(job[i]) = "PROFILE" => \A w \in Views : Len(View(job, w)) > 0 /\ View(job, w)[Len(View(job, w))][2] = "PROFILE"
NothingElse == \A i \in 1..Len(job) : Kind(job[i]) \notin {BottomUp[k] : k \in 1..Len(BottomUp)} => job[i].file \notin Shown
OneView == \A i \in 1..Len(job) : Kind(job[i]) # "PROFILE" =>
             Cardinality({w \in Views : \E k \in 1..Len(View(job, w)) : View(job, w)[k][1] = job[i].file}) <= 1
EmitJob == (Len(job) = Entries) => PrintT(<<"BEHAVIOUR", ToJson(job)>>)
=============================================================================
