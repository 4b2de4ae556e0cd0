--------------------------------- MODULE Moves ---------------------------------
(* Block moves. The state is the list of matched blocks of the generated text in *)
(* its order: <<number in the correct text, length>>.                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
MaxMove == 100
Number(L, i) == L[i][1]
(* Merging the neighbours i and i + 1, which are consecutive in the correct text. *)
Consecutive(L, i) == i < Len(L) /\ L[i + 1][1] = L[i][1] + 1
Merge(L, i) ==
  LET d == L[i][1]
      M == SubSeq(L, 1, i - 1) \o <<<<d, L[i][2] + L[i + 1][2]>>>> \o SubSeq(L, i + 2, Len(L))
  IN [k \in DOMAIN M |-> IF M[k][1] > d THEN <<M[k][1] - 1, M[k][2]>> ELSE M[k]]
RECURSIVE Combine(_)
Combine(L) == LET i == SelectInSeq([k \in DOMAIN L |-> Consecutive(L, k)], LAMBDA b : b)
              IN IF i = 0 THEN L ELSE Combine(TLCEval(Merge(L, i)))
(* Moving block d to just after its predecessor (the first to just before the second). *)
At(L, d) == CHOOSE i \in DOMAIN L : L[i][1] = d
Move(L, d) ==
  LET i == At(L, d)
      R == SubSeq(L, 1, i - 1) \o SubSeq(L, i + 1, Len(L))
      j == IF d = 1 THEN At(R, 2) - 1 ELSE At(R, d - 1)
  IN SubSeq(R, 1, j) \o <<L[i]>> \o SubSeq(R, j + 1, Len(R))
(* By how many blocks that shortens the list (MCMoves shows that it does). *)
Reduction(L, d) ==
  LET i == At(L, d)
  IN 1 + (IF \E k \in 1..(Len(L) - 1) : L[k][1] = d - 1 /\ L[k + 1][1] = d + 1 THEN 1 ELSE 0)
       + (IF i > 1 /\ i < Len(L) /\ L[i + 1][1] = L[i - 1][1] + 1 THEN 1 ELSE 0)
(* The block to move: greatest reduction, then shortest, then lowest number. *)
Better(L, d, c) == LET rd == Reduction(L, d)  rc == Reduction(L, c)  nd == L[At(L, d)][2]  nc == L[At(L, c)][2]
                   IN rd > rc \/ (rd = rc /\ (nd < nc \/ (nd = nc /\ d < c)))
Choice(L) == CHOOSE d \in 1..Len(L) : \A c \in 1..Len(L) : c = d \/ Better(L, d, c)
Charged(n) == IF n > MaxMove THEN MaxMove ELSE n
(* All the lists that are gone through, and the moves: [shown, moves]. *)
RECURSIVE MovesFrom(_, _)
MovesFrom(L, acc) ==
  IF Len(L) <= 1 THEN acc
  ELSE LET d == Choice(L)
           M == TLCEval(Move(L, d))
           C == TLCEval(Combine(M))
       IN MovesFrom(C, [shown |-> acc.shown \o <<<<"moved", d, M>>, <<"combined", 0, C>>>>,
                        moves |-> Append(acc.moves, Charged(L[At(L, d)][2]))])
AllMoves(L) == LET C == Combine(L) IN MovesFrom(C, [shown |-> <<<<"original", 0, L>>, <<"combined", 0, C>>>>, moves |-> <<>>])
=============================================================================
