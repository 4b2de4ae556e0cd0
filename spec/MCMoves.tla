-------------------------------- MODULE MCMoves --------------------------------
(* The moves as a machine, for all orders of up to MaxBlocks blocks of the given   *)
(* lengths: it ends with one block (or none), every list is an arrangement of      *)
(* 1..n, the length of the text is kept, each move shortens the list by exactly    *)
(* its reduction, and fewer moves are made than there are blocks.                  *)
EXTENDS Moves, TLC, FiniteSetsExt
CONSTANTS MaxBlocks, Lengths
VARIABLES orig, L, moves, phase
vars == <<orig, L, moves, phase>>
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Init == /\ orig \in UNION {{[i \in 1..n |-> <<p[i], s[i]>>] : p \in Perms(n), s \in [1..n -> Lengths]} : n \in 0..MaxBlocks}
        /\ L = orig /\ moves = <<>> /\ phase = "combine"
(* Neighbours may be merged in any order. *)
MergeSome == /\ phase = "combine"
             /\ \E i \in DOMAIN L : Consecutive(L, i) /\ L' = Merge(L, i)
             /\ UNCHANGED <<orig, moves, phase>>
Ready == phase = "combine" /\ ~\E i \in DOMAIN L : Consecutive(L, i)
StartMove == /\ Ready /\ Len(L) > 1
             /\ L' = Move(L, Choice(L)) /\ moves' = Append(moves, Charged(L[At(L, Choice(L))][2]))
             /\ UNCHANGED <<orig, phase>>
Next == MergeSome \/ StartMove
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Total(S) == FoldLeft(LAMBDA a, b : a + b[2], 0, S)
Arrangement == {L[i][1] : i \in DOMAIN L} = 1..Len(L)
Kept == Total(L) = Total(orig)
ExactReduction == Ready /\ Len(L) > 1 => \A d \in 1..Len(L) : Len(Combine(Move(L, d))) = Len(L) - Reduction(L, d)
Fewer == Len(moves) <= (IF orig = <<>> THEN 0 ELSE Len(Combine(orig)) - 1)
InOrder == orig # <<>> /\ (\A i \in DOMAIN orig : orig[i][1] = i) => moves = <<>>
Done == Ready /\ Len(L) <= 1
Agrees == Done => moves = AllMoves(orig).moves /\ L = AllMoves(orig).shown[Len(AllMoves(orig).shown)][3]
Ends == <>Done
=============================================================================
