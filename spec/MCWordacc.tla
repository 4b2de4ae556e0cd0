------------------------------ MODULE MCWordacc ------------------------------
(* The matching of words, as a state machine: words that only one text has    *)
(* are set aside; on the others, diagonal k (the pairs i, i + k) is explored   *)
(* as far as p insertions and deletions reach, for p = 0, 1, ..., until the    *)
(* last diagonal reaches both ends; then the matches are read off backwards.   *)
EXTENDS Common
CONSTANTS Alphabet, MaxLen
VARIABLES a, b,         \* the words of the two texts
          p, k,         \* round and diagonal
          minK, maxK,   \* diagonals still of interest
          cur, paths,   \* frontier of this round, frontiers of the earlier ones
          done, kept    \* result: the positions of a that are recognized
vars == <<a, b, p, k, minK, maxK, cur, paths, done, kept>>
Strs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
InBoth(s, t) == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : \E j \in DOMAIN t : t[j] = s[i])
A == InBoth(a, b)
B == InBoth(b, a)
M == Len(A)
N == Len(B)
(* Frontiers that were out of bounds stay 0. *)
InitialF(d, prev, q) ==
  LET r1 == IF q > 0 /\ d > 1 - q THEN [f |-> prev[d - 1], k |-> d - 1] ELSE [f |-> 0, k |-> d - 1]
      v == IF q > 0 /\ d < q - 1 THEN prev[d + 1] + 1 ELSE -1
  IN IF q = 0 THEN [f |-> 0, k |-> 0] ELSE IF v >= r1.f THEN [f |-> v, k |-> d + 1] ELSE r1
RECURSIVE Slide(_, _)
Slide(i, j) == IF i < M /\ j < N /\ a[A[i + 1]] = b[B[j + 1]] THEN Slide(i + 1, j + 1) ELSE i
Diagonals(q) == {2 * d - q : d \in 0..q}
Zeros(q) == [d \in Diagonals(q) |-> 0]
Prev == IF p = 0 THEN <<>> ELSE paths[p]
Init == /\ a \in Strs /\ b \in Strs
        /\ p = 0 /\ k = 0 /\ minK = -M /\ maxK = N /\ cur = Zeros(0) /\ paths = <<>> /\ done = FALSE /\ kept = {}
InBounds == k >= minK /\ k <= maxK
Reach == /\ ~done /\ k <= p /\ InBounds
         /\ LET st == InitialF(k, Prev, p)
                i == Slide(st.f, st.f + k)
            IN /\ cur' = [cur EXCEPT ![k] = i]
               /\ minK' = IF i = M THEN k + 1 ELSE minK
               /\ maxK' = IF i + k = N THEN k - 1 ELSE maxK
         /\ k' = k + 2
         /\ UNCHANGED <<a, b, p, paths, done, kept>>
Skip == ~done /\ k <= p /\ ~InBounds /\ k' = k + 2 /\ UNCHANGED <<a, b, p, minK, maxK, cur, paths, done, kept>>
NextRound == /\ ~done /\ k > p /\ minK <= N - M
             /\ paths' = Append(paths, cur) /\ p' = p + 1 /\ k' = -(p + 1) /\ cur' = Zeros(p + 1)
             /\ UNCHANGED <<a, b, minK, maxK, done, kept>>
Back(ps) ==
  FoldRight(LAMBDA path, acc :
      LET q == acc.q
          f == path[acc.k]
          st == InitialF(acc.k, IF q = 0 THEN <<>> ELSE ps[q], q)
      IN [q |-> q - 1, k |-> st.k, s |-> acc.s \cup {A[i] : i \in (st.f + 1)..f}],
    ps, [q |-> Len(ps) - 1, k |-> N - M, s |-> {}]).s
Finish == /\ ~done /\ k > p /\ minK > N - M
          /\ done' = TRUE
          /\ kept' = Back(Append(paths, cur))
          /\ UNCHANGED <<a, b, p, k, minK, maxK, cur, paths>>
Next == Reach \/ Skip \/ NextRound \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
BestKept == done => kept \in Kept(a, b)
RoundsAreDifferences == done => p = (M + N) - (2 * LCS(a, b))
FrontierInside == \A d \in DOMAIN cur : cur[d] \in 0..M /\ (cur[d] # 0 => cur[d] + d \in 0..N)
(* How traces are judged. *)
ForcedIsInEvery == done => /\ Forced(a, b) = {i \in DOMAIN a : \A S \in Kept(a, b) : i \in S}
                           /\ Cardinality(Forced(a, b)) = LCS(a, b) <=> Cardinality(Kept(a, b)) = 1
                           /\ (Pick(a, {A[i] : i \in DOMAIN A}) = Pick(b, {B[i] : i \in DOMAIN B})) => Kept(a, b) = {{A[i] : i \in DOMAIN A}}
Terminates == <>done
=============================================================================
