-------------------------------- MODULE LspMC --------------------------------
(***************************************************************************)
(* The server as it is built: a reader applies every message to the        *)
(* workspace at once and queues a task for it; tasks run one after the     *)
(* other.  A change task reads the workspace when it runs, so it may see   *)
(* later text than the message carried.  TLC shows what a client can rely  *)
(* on: an answer is about a version of the asked document between the one  *)
(* it last sent before asking and the last one sent before the answer, and *)
(* a quiet server knows the current version of every open document.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Uris, Depth, Emit
VARIABLES ver, n, inbox, ws, tasks, doc, hist, asks
vars == <<ver, n, inbox, ws, tasks, doc, hist, asks>>
None == 0      \* closed, or nothing known
Init == /\ ver = [u \in Uris |-> None] /\ n = 0 /\ inbox = <<>> /\ ws = [u \in Uris |-> None] /\ tasks = <<>>
        /\ doc = [u \in Uris |-> None] /\ hist = <<>> /\ asks = <<>>

Send(m) == /\ inbox' = Append(inbox, m) /\ hist' = Append(hist, [a |-> m.a, u |-> m.u])
           /\ (Emit /\ Len(hist') = Depth) => PrintT(<<"BEHAVIOUR", ToJson(hist')>>)
Set(a, u) == /\ n' = n + 1 /\ ver' = [ver EXCEPT ![u] = n + 1] /\ Send([a |-> a, u |-> u, v |-> n + 1]) /\ UNCHANGED asks
Open(u) == ver[u] = None /\ Set("open", u)
Change(u) == ver[u] # None /\ Set("change", u)
Close(u) == /\ ver[u] # None /\ ver' = [ver EXCEPT ![u] = None] /\ Send([a |-> "close", u |-> u, v |-> 0]) /\ UNCHANGED n
            /\ asks' = [k \in 1..Len(asks) |-> IF asks[k].u = u /\ ~asks[k].done THEN [asks[k] EXCEPT !.loose = TRUE] ELSE asks[k]]
Ask(u) == /\ ver[u] # None /\ Send([a |-> "ask", u |-> u, v |-> Len(asks) + 1]) /\ UNCHANGED <<ver, n>>
          /\ asks' = Append(asks, [u |-> u, from |-> ver[u], to |-> 0, got |-> 0, done |-> FALSE, loose |-> FALSE])
Client == /\ Len(hist) < Depth /\ (\E u \in Uris : Open(u) \/ Change(u) \/ Close(u) \/ Ask(u)) /\ UNCHANGED <<ws, tasks, doc>>

Receive == /\ ~Emit /\ inbox # <<>> /\ LET m == Head(inbox) IN
             /\ inbox' = Tail(inbox) /\ tasks' = Append(tasks, m)
             /\ ws' = [ws EXCEPT ![m.u] = IF m.a = "ask" THEN @ ELSE m.v]
           /\ UNCHANGED <<ver, n, doc, hist, asks>>
Perform == /\ tasks # <<>> /\ tasks' = Tail(tasks) /\ UNCHANGED <<ver, n, inbox, ws, hist>>
           /\ LET m == Head(tasks) IN
              CASE m.a = "open" -> doc' = [doc EXCEPT ![m.u] = m.v] /\ UNCHANGED asks
                [] m.a = "change" -> doc' = [doc EXCEPT ![m.u] = ws[m.u]] /\ UNCHANGED asks
                [] m.a = "close" -> doc' = [doc EXCEPT ![m.u] = None] /\ UNCHANGED asks
                [] OTHER -> /\ UNCHANGED doc
                            /\ asks' = [asks EXCEPT ![m.v] = [@ EXCEPT !.done = TRUE, !.got = doc[m.u], !.to = ver[m.u]]]
Next == Client \/ Receive \/ Perform
Spec == Init /\ [][Next]_vars

Window == \A k \in 1..Len(asks) : LET q == asks[k] IN (q.done /\ ~q.loose) => q.from <= q.got /\ q.got <= q.to
Quiet == (inbox = <<>> /\ tasks = <<>>) => doc = ver /\ \A k \in 1..Len(asks) : asks[k].done
\* without messages under way when asking and answering the answer is about exactly the current version
Exact == \A k \in 1..Len(asks) : LET q == asks[k] IN (q.done /\ ~q.loose /\ q.from = q.to) => q.got = q.from
=============================================================================
