------------------------------ MODULE GenServices ------------------------------
(* Histories of operations, for replay: TLC either enumerates all of length Depth *)
(* (breadth first) or samples long ones (simulation), and prints each.            *)
EXTENDS Services, Json
CONSTANTS Items, Lists, Entries, Keys, Depth
VARIABLES st, hist
vars == <<st, hist>>
Key == [i \in Entries |-> i % Keys]
Op(o, a) == [op |-> o, args |-> a, key |-> 0]
Ops == {Op(o, <<x, i>>) : o \in {"f", "l", "r"}, x \in Lists, i \in Items}
       \cup {Op(o, <<x, i, r>>) : o \in {"a", "b"}, x \in Lists, i \in Items, r \in Items}
       \cup {Op(o, <<x>>) : o \in {"v", "e"}, x \in Lists}
       \cup {Op(o, <<i>>) : o \in {"I", "X"}, i \in Entries}
       \cup {[op |-> "?", args |-> <<0>>, key |-> k] : k \in 0..(Keys - 1)}
       \cup (IF Entries = {} THEN {} ELSE {Op(o, <<0>>) : o \in {"T", "Z"}})
Init == st = Empty /\ hist = <<>>
Do(o) == /\ Len(hist) < Depth /\ Legal(st, Key, o)
         /\ st' = Apply(st, o) /\ hist' = Append(hist, o)
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => PrintT(<<"HISTORY", ToJson([k \in DOMAIN hist |-> <<hist[k].op, hist[k].args, hist[k].key>>])>>)
=============================================================================
