------------------------------- MODULE FastUkk -------------------------------
(* The diagonal algorithm behind the two-text alignment, as a state machine. *)
(* Diagonal k holds the pairs (i, i+k). For p = 0, 1, ... it computes on each*)
(* diagonal within bounds how far p differences reach; the bounds tighten as *)
(* an end of a text is reached. One action per diagonal.                     *)
(* Terminating, it backs up through the stored frontiers to the matches.     *)
EXTENDS Align, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES a, b,          \* the texts (values)
          p,             \* number of differences of the current round
          minK, maxK,    \* diagonals still of interest
          todo,          \* diagonals left in this round, in order
          cur,           \* current frontier: diagonal -> row
          paths,         \* earlier frontiers
          segs           \* result, or <<>> while running
vars == <<a, b, p, minK, maxK, todo, cur, paths, segs>>

M == Len(a)
N == Len(b)
D == N - M
Strs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}

(* Where diagonal k starts, given the previous frontier: a record of the row *)
(* and of the diagonal it comes from (the last best in ascending order).     *)
InitialF(k, prev) ==
  LET ks == SelectSeq(<<k-1, k, k+1>>, LAMBDA x : x \in DOMAIN prev)
  IN FoldLeft(LAMBDA best, x : LET v == prev[x] + (IF x >= k THEN 1 ELSE 0)
                               IN IF v >= best.f THEN [f |-> v, k |-> x] ELSE best,
              [f |-> 0, k |-> 0], ks)

RECURSIVE Slide(_, _)
Slide(i, j) == IF i < M /\ j < N /\ Same(a[i+1], b[j+1]) THEN Slide(i+1, j+1) ELSE i

(* The order of the diagonals in a round: towards the final diagonal first   *)
(* from one side, then the other side (the bounds used are those that hold   *)
(* when the diagonal's turn comes).                                          *)
Down(from, to) == [x \in 1..Mx(0, from - to + 1) |-> from - x + 1]
Up(from, to) == [x \in 1..Mx(0, to - from + 1) |-> from + x - 1]
Plan(q) == IF M <= N THEN Down(Mn(D, q), -q) \o Up(D + 1, q)
                     ELSE Up(Mx(D, -q), q) \o Down(D - 1, -q)

Init == /\ a \in Strs /\ b \in Strs
        /\ p = 0 /\ minK = -M /\ maxK = N
        /\ todo = Plan(0)
        /\ cur = <<>> /\ paths = <<>> /\ segs = <<>>

Running == segs = <<>> /\ ~(a = <<>> /\ b = <<>> /\ p > 0)
InBounds(k) == k >= minK /\ k <= maxK

Skip == /\ segs = <<>> /\ todo # <<>> /\ ~InBounds(Head(todo))
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<a, b, p, minK, maxK, cur, paths, segs>>

Reach == /\ segs = <<>> /\ todo # <<>> /\ InBounds(Head(todo))
         /\ LET k == Head(todo)
                st == IF paths = <<>> THEN [f |-> 0, k |-> 0] ELSE InitialF(k, paths[Len(paths)])
                i == Slide(st.f, st.f + k)
                bound == p + Mx(M, N - k) - i
                lo1 == IF i = M THEN k + 1 ELSE minK
                hi1 == IF i + k = N THEN k - 1 ELSE maxK
            IN /\ cur' = (k :> i) @@ cur
               /\ minK' = Mx(lo1, (1 - bound + D) \div 2)
               /\ maxK' = Mn(hi1, (bound + D) \div 2)
         /\ todo' = Tail(todo)
         /\ UNCHANGED <<a, b, p, paths, segs>>

NextRound == /\ segs = <<>> /\ todo = <<>> /\ minK <= D
             /\ paths' = Append(paths, cur)
             /\ cur' = <<>>
             /\ p' = p + 1
             /\ todo' = Plan(p + 1)
             /\ UNCHANGED <<a, b, minK, maxK, segs>>

(* Backing up: the matches, last first. *)
Back(ps) ==
  FoldRight(LAMBDA path, acc :
      LET q == acc.q
          f == path[acc.k]
          st == IF q = 1 THEN [f |-> 0, k |-> 0] ELSE InitialF(acc.k, ps[q - 1])
      IN [q |-> q - 1, k |-> st.k,
          ms |-> IF f > st.f THEN <<[i |-> st.f, j |-> st.f + acc.k, n |-> f - st.f]>> \o acc.ms ELSE acc.ms],
    ps, [q |-> Len(ps), k |-> D, ms |-> <<>>]).ms

Gap(i1, i2, j1, j2) == IF i1 = i2 /\ j1 = j2 THEN <<>>
                       ELSE <<[m |-> FALSE, a |-> SubSeq(a, i1 + 1, i2), b |-> SubSeq(b, j1 + 1, j2)]>>
Segments(ms) ==
  LET r == FoldLeft(LAMBDA acc, x :
             [i |-> x.i + x.n, j |-> x.j + x.n,
              s |-> acc.s \o Gap(acc.i, x.i, acc.j, x.j)
                    \o <<[m |-> TRUE, a |-> SubSeq(a, x.i + 1, x.i + x.n), b |-> SubSeq(b, x.j + 1, x.j + x.n)]>>],
             [i |-> 0, j |-> 0, s |-> <<>>], ms)
  IN r.s \o Gap(r.i, M, r.j, N)

Finish == /\ segs = <<>> /\ todo = <<>> /\ minK > D
          /\ a # <<>> \/ b # <<>>
          /\ segs' = Segments(Back(Append(paths, cur)))
          /\ paths' = Append(paths, cur)
          /\ cur' = <<>>
          /\ UNCHANGED <<a, b, p, minK, maxK, todo>>

Next == Skip \/ Reach \/ NextRound \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

ResultValid == segs # <<>> => Valid(segs, a, b)
ResultOptimal == segs # <<>> => Optimal(segs, a, b) /\ Cost(segs) = p
(* Every stored row is reachable with that number of differences. *)
FrontierSound == \A k \in DOMAIN cur :
    /\ cur[k] \in 0..M
    /\ cur[k] + k \in 0..N => Lev(SubSeq(a, 1, cur[k]), SubSeq(b, 1, cur[k] + k)) <= p
BoundedRounds == p <= Mx(M, N)
BagBoundSound == BagBound(a, b) <= Lev(a, b)
Terminates == <>(segs # <<>> \/ (a = <<>> /\ b = <<>>))
=============================================================================
