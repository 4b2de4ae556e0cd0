------------------------------- MODULE Common -------------------------------
(* Longest common subsequences.                                             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
LOCAL Mx(a, b) == IF a > b THEN a ELSE b
(* Row i of the table of the lengths for the prefixes of a and b; entry j+1 *)
(* is the one for the prefix of length j.                                   *)
LOCAL NextRow(prev, x, b) ==
  FoldLeftDomain(LAMBDA row, j : Append(row, IF b[j] = x THEN prev[j] + 1 ELSE Mx(prev[j + 1], row[j])), <<0>>, b)
Rows(a, b) == FoldLeft(LAMBDA rows, x : Append(rows, NextRow(rows[Len(rows)], x, b)), << [j \in 1..(Len(b) + 1) |-> 0] >>, a)
LCS(a, b) == Rows(a, b)[Len(a) + 1][Len(b) + 1]
(* Definition. *)
Pick(a, S) == LET ks == SelectSeq([i \in DOMAIN a |-> i], LAMBDA i : i \in S) IN [k \in DOMAIN ks |-> a[ks[k]]]
IsSubsequence(x, b) == FoldLeft(LAMBDA k, y : IF k < Len(x) /\ x[k + 1] = y THEN k + 1 ELSE k, 0, b) = Len(x)
(* The sets of positions of a that a longest common subsequence can keep. *)
Kept(a, b) == LET n == TLCEval(LCS(a, b)) IN {S \in SUBSET (DOMAIN a) : Cardinality(S) = n /\ IsSubsequence(Pick(a, S), b)}
(* The positions that every one keeps: without them the length decreases.   *)
Forced(a, b) ==
  LET P == TLCEval(Rows(a, b))
      R == TLCEval(Rows(Reverse(a), Reverse(b)))
      n == Len(a)  m == Len(b)
      best(i) == FoldLeft(LAMBDA x, j : Mx(x, P[i][j] + R[(n - i) + 1][(m - j) + 2]), 0, [j \in 1..(m + 1) |-> j])
  IN {i \in DOMAIN a : best(i) < P[n + 1][m + 1]}
=============================================================================
