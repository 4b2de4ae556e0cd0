------------------------------- MODULE MCRunWords -------------------------------
(* Words grow at their ends, in both representations, and compare alike.         *)
EXTENDS RunWords, TLC
CONSTANTS MaxLen
VARIABLES x, y, rx, ry
Grow(r, q) == IF r # <<>> /\ r[Len(r)][1] = q THEN [r EXCEPT ![Len(r)] = <<q, @[2] + 1>>] ELSE Append(r, <<q, 1>>)
Init == x = <<>> /\ y = <<>> /\ rx = <<>> /\ ry = <<>>
Next == \/ \E q \in 1..3 : Len(x) < MaxLen /\ x' = Append(x, q) /\ rx' = Grow(rx, q) /\ UNCHANGED <<y, ry>>
        \/ \E q \in 1..3 : Len(y) < MaxLen /\ y' = Append(y, q) /\ ry' = Grow(ry, q) /\ UNCHANGED <<x, rx>>
Spec == Init /\ [][Next]_<<x, y, rx, ry>>
Less(a, b) == \E n \in 0..Len(b) : /\ n <= Len(a) /\ \A i \in 1..n : a[i] = b[i]
                                   /\ n < Len(b) /\ (n = Len(a) \/ a[n + 1] < b[n + 1])
Right == /\ Runs(x) = rx /\ Expand(rx) = x
         /\ RunLess(rx, ry) = Less(x, y)
=============================================================================
