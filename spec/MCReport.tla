------------------------------- MODULE MCReport -------------------------------
(* A workspace of reports that are summed two or more at a time, in any order   *)
(* and grouping (a report may be used again). Whatever the history, the final   *)
(* sum of the reports that are left, each counted once, is that of the          *)
(* originals; a report of nothing changes nothing.                              *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
Plus(a, b) == a + b
R == INSTANCE Report WITH Zero <- 0
Rep(n, f) == [num |-> [chars |-> n], tab |-> [char |-> f]]
Originals == <<Rep(3, [k \in {"a"} |-> <<3, 1>>]), Rep(5, [k \in {"a", "b"} |-> IF k = "a" THEN <<1, 0>> ELSE <<4, 2>>]),
               Rep(0, <<>>), Rep(2, [k \in {"c"} |-> <<2, 2>>]), Rep(7, [k \in {"b"} |-> <<7, 0>>])>>
VARIABLES work, steps
vars == <<work, steps>>
Init == work = Originals /\ steps = 0
Without(S) == LET keep == SelectSeq([i \in DOMAIN work |-> i], LAMBDA i : i \notin S) IN [i \in DOMAIN keep |-> work[keep[i]]]
Perms(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : p[i] = p[j] => i = j}
Combine == \E S \in SUBSET DOMAIN work : Cardinality(S) >= 2 /\
              \E p \in Perms(S) : work' = Append(Without(S), R!SumReports([i \in DOMAIN p |-> work[p[i]]])) /\ steps' = steps + 1
Next == Combine
Spec == Init /\ [][Next]_vars
Invariant == R!SumReports(work) = R!SumReports(Originals)
Commutes == \A i, j \in DOMAIN work : R!SumReport(work[i], work[j]) = R!SumReport(work[j], work[i])
Neutral == \A i \in DOMAIN work : R!SumReport(work[i], Rep(0, <<>>)) = work[i]
Ends == Len(work) = 1 => work[1] = R!SumReports(Originals)
=============================================================================
