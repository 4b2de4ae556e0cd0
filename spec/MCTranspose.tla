------------------------------ MODULE MCTranspose ------------------------------
(* The transposed alignment as a machine. For all pairs of texts within the       *)
(* constants: it ends; pieces rebuild both texts; equal numbers are equal texts   *)
(* free of ~ and occur once on each side; block lengths never grow; at the end    *)
(* nothing common is left unmatched.                                              *)
EXTENDS Sync, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES x, y, px, py, id
vars == <<x, y, px, py, id>>
All == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == x \in All /\ y \in All /\ px = Pieces(x) /\ py = Pieces(y) /\ id = 1
Best == BestPair(x, y, px, py)
Next == /\ Best.n > 0
        /\ px' = SplitPiece(px, Best.u, Best.i, Best.n, id)
        /\ py' = SplitPiece(py, Best.v, Best.j, Best.n, id)
        /\ id' = id + 1 /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Of(t, p) == SubSeq(t, p.lo, p.hi)
Rebuilds == FlattenSeq([k \in DOMAIN px |-> Of(x, px[k])]) = x /\ FlattenSeq([k \in DOMAIN py |-> Of(y, py[k])]) = y
Matched(ps) == {k \in DOMAIN ps : ps[k].id # 0}
Paired == /\ {px[k].id : k \in Matched(px)} = 1..(id - 1) /\ {py[k].id : k \in Matched(py)} = 1..(id - 1)
          /\ Cardinality(Matched(px)) = id - 1 /\ Cardinality(Matched(py)) = id - 1
          /\ \A k \in Matched(px), j \in Matched(py) : px[k].id = py[j].id => Of(x, px[k]) = Of(y, py[j]) /\ ~Contains(Of(x, px[k]), REJ)
Size(ps, d) == LET k == CHOOSE k \in DOMAIN ps : ps[k].id = d IN ps[k].hi - ps[k].lo + 1
Descending == \A d \in 1..(id - 2) : Size(px, d) >= Size(px, d + 1)
LongestOfAll == Best.n > 0 => \A u \in DOMAIN px, v \in DOMAIN py : px[u].id = 0 /\ py[v].id = 0 =>
                  Common(x, px[u].lo, px[u].hi, y, py[v].lo, py[v].hi).n <= Best.n
(* Ties: the leftmost piece of the first text, then of the second, then the leftmost position within them. *)
Leftmost == Best.n > 0 =>
  LET C == {q \in (DOMAIN px) \X (DOMAIN py) \X (DOMAIN x) \X (DOMAIN y) :
               /\ px[q[1]].id = 0 /\ py[q[2]].id = 0
               /\ q[3] >= px[q[1]].lo /\ q[3] <= px[q[1]].hi /\ q[4] >= py[q[2]].lo /\ q[4] <= py[q[2]].hi
               /\ Extent(x, q[3], px[q[1]].hi, y, q[4], py[q[2]].hi) = Best.n}
      b == <<Best.u, Best.v, Best.i, Best.j>>
  IN b \in C /\ \A p \in C : p = b \/ SeqLess(b, p)
Exhausted == Best.n = 0 => \A k \in DOMAIN px \ Matched(px), j \in DOMAIN py \ Matched(py) :
                             \A c \in ToSet(Of(x, px[k])) \cap ToSet(Of(y, py[j])) : c = REJ
Agrees == Best.n = 0 => [x |-> px, y |-> py] = TransposeFrom(x, y, Pieces(x), Pieces(y), 1)
Ends == <>(Best.n = 0)
=============================================================================
