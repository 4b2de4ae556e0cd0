-------------------------------- MODULE MCGroup --------------------------------
(* Walking the group once, with counters for every character (0 for those that   *)
(* the report does not list): a line for each occurrence, and running totals.    *)
EXTENDS Group, FiniteSets, TLC
CONSTANTS MaxLen, Chars, Counts
VARIABLES group, count, missed, at, lines, total
vars == <<group, count, missed, at, lines, total>>
Init == /\ group \in UNION {[1..n -> Chars] : n \in 0..MaxLen}
        /\ count \in [Chars -> Counts] /\ missed \in [Chars -> Counts] /\ \A c \in Chars : missed[c] <= count[c]
        /\ at = 1 /\ lines = <<>> /\ total = <<0, 0>>
Counting == at <= Len(group) /\ count[group[at]] > 0 /\ group[at] \notin {32, 10}
Line == /\ Counting
        /\ LET c == group[at]
           IN lines' = Append(lines, <<c, count[c], missed[c]>>) /\ total' = <<total[1] + count[c], total[2] + missed[c]>>
        /\ at' = at + 1 /\ UNCHANGED <<group, count, missed>>
Pass == at <= Len(group) /\ ~Counting /\ at' = at + 1 /\ UNCHANGED <<group, count, missed, lines, total>>
Next == Line \/ Pass
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
done == at > Len(group)
(* The rows that the report has. *)
Rows == LET cs == SelectSeq(SetToSortSeq(Chars, LAMBDA x, y : x < y), LAMBDA c : count[c] > 0) IN [i \in DOMAIN cs |-> <<cs[i], count[cs[i]], missed[cs[i]]>>]
Right == /\ lines = GroupLines(SubSeq(group, 1, at - 1), Rows)
         /\ total = FoldLeft(LAMBDA x, r : <<x[1] + r[2], x[2] + r[3]>>, <<0, 0>>, lines)
InParts == done => \A k \in 0..Len(group) :
             GroupLines(group, Rows) = GroupLines(SubSeq(group, 1, k), Rows) \o GroupLines(SubSeq(group, k + 1, Len(group)), Rows)
(* The order of the rows of the report does not matter. *)
AnyOrder == done => GroupLines(group, Reverse(Rows)) = lines
Ends == <>done
=============================================================================
