----------------------------- MODULE DocumentMC -----------------------------
(* All small documents: a document grows command by command with arbitrary
   gaps, nested blocks and unreadable lines; the lookup is also computed by
   a binary search over the tree, as an implementation would, and the modes
   by a reader that consumes one item at a time.                            *)
EXTENDS Document, TLC
CONSTANTS Size, Cols
VARIABLES cs, starts, line, col, items, red, got
vars == <<cs, starts, line, col, items, red, got>>
Cm(k) == [k |-> k, j |-> 0, f |-> <<>>]
Alpha == {Cm("G01"), Cm("ABo"), Cm("ABc"), Cm("AMo"), Cm("AMc")}
Init == cs = <<>> /\ starts = <<>> /\ line = 1 /\ col = 1 /\ items = <<>> /\ red = 0 /\ got = <<>>
Level == IF cs = <<>> THEN 0 ELSE LET d == Depths(cs) IN IF Closes(cs[Len(cs)].k) THEN d[Len(cs)] - 1 ELSE d[Len(cs)]
Add == /\ Len(cs) < Size
       /\ \E c \in Alpha : /\ Closes(c.k) => Level > 0
                           /\ cs' = Append(cs, c)
       /\ starts' = Append(starts, <<line, col>>)
       /\ items' = Append(items, "cmd")
       /\ \/ line' = line /\ col' = col + 1 /\ col < Cols
          \/ line' = line + 1 /\ col' \in 1..Cols
       /\ UNCHANGED <<red, got>>
Junk == /\ Len(items) < Size + 1 /\ line < Size + 1
        /\ items' = Append(items, "junk") /\ line' = line + 1 /\ col' = 1
        /\ UNCHANGED <<cs, starts, red, got>>
\* the resilient reader
Read == /\ red < Len(items) /\ red' = red + 1 /\ got' = Append(got, items[red + 1])
        /\ UNCHANGED <<cs, starts, line, col, items>>
Next == Add \/ Junk \/ Read
Spec == Init /\ [][Next]_vars

RECURSIVE Bin(_, _, _)
Bin(lo, hi, p) == IF lo = hi THEN (IF Before(starts[lo], p) THEN lo ELSE 0)
                  ELSE LET mid == lo + ((hi - lo + 1) \div 2)
                       IN IF Before(starts[mid], p) THEN Bin(mid, hi, p) ELSE Bin(lo, mid - 1, p)
SearchAgrees == cs = <<>> \/ \A p \in (1..(line + 1)) \X (1..(Cols + 1)) : Bin(1, Len(cs), p) = Find(starts, p)
\* positions at which something starts find exactly that
FindsItself == \A q \in 1..Len(cs) : Find(starts, starts[q]) = q
\* the deepest a document gets is bounded by the number of open commands, and never below the top
DepthOK == \A q \in 1..Len(cs) : Depths(cs)[q] >= 0 /\ (Closes(cs[q].k) => Depths(cs)[q] >= 1)
ModesAgree == /\ Strict(items) = "all" <=> (items # <<>> /\ Prefix(items) = Len(items))
              /\ \A q \in 1..Prefix(items) : items[q] = "cmd"
              /\ got = SubSeq(Resilient(items), 1, red)
=============================================================================
