---------------------------------- MODULE Sync ----------------------------------
(* The two block alignments. A text is a sequence of code points.                *)
EXTENDS Text, TLC
(* Length of the common substring (without ~) that starts at x[i] and y[j],       *)
(* within x[..hi] and y[..hj].                                                    *)
RECURSIVE Extent(_, _, _, _, _, _)
Extent(x, i, hi, y, j, hj) == IF i > hi \/ j > hj \/ x[i] # y[j] \/ x[i] = REJ THEN 0 ELSE 1 + Extent(x, i + 1, hi, y, j + 1, hj)

(* Declarative: the longest common substring of x[li..hi] and y[lj..hj], leftmost *)
(* in x and then in y among those; n = 0 if there is none.                        *)
Common(x, li, hi, y, lj, hj) ==
  LET P == (li..hi) \X (lj..hj)
      E(p) == Extent(x, p[1], hi, y, p[2], hj)
      best == {p \in P : \A q \in P : E(q) <= E(p)}
      first == {p \in best : \A q \in best : p[1] <= q[1]}
      p == CHOOSE p \in first : \A q \in first : p[2] <= q[2]
  IN IF P = {} \/ E(p) = 0 THEN [n |-> 0, i |-> 0, j |-> 0] ELSE [n |-> E(p), i |-> p[1], j |-> p[2]]
(* The same, by a scan that keeps the best so far (MCSync shows they agree).      *)
Longest(x, li, hi, y, lj, hj) ==
  FoldLeft(LAMBDA b, i : IF i + b.n > hi THEN b ELSE
             FoldLeft(LAMBDA c, j : IF j + c.n > hj \/ x[i] # y[j] \/ i + c.n > hi THEN c
                                    ELSE LET n == Extent(x, i, hi, y, j, hj) IN IF n > c.n THEN [n |-> n, i |-> i, j |-> j] ELSE c,
                      b, [k \in 1..(IF hj < lj THEN 0 ELSE hj - lj + 1) |-> lj + k - 1]),
           [n |-> 0, i |-> 0, j |-> 0], [k \in 1..(IF hi < li THEN 0 ELSE hi - li + 1) |-> li + k - 1])

(***************************************************************************)
(* Heuristic alignment of any number of texts. A segment is                *)
(* [m, lo, hi]: matched?, and for each text the first and last position.   *)
(***************************************************************************)
SegLen(s, t) == s.hi[t] - s.lo[t] + 1
Inhabited(s) == \E t \in DOMAIN s.lo : SegLen(s, t) > 0
Whole(texts) == [m |-> FALSE, lo |-> [t \in DOMAIN texts |-> 1], hi |-> [t \in DOMAIN texts |-> Len(texts[t])]]
(* The block on which a segment is split: [n, at] (at: position in each text).    *)
Narrow(texts, s, b, t) ==
  IF b.n = 0 THEN b
  ELSE LET r == Longest(texts[1], b.at[1], b.at[1] + b.n - 1, texts[t], s.lo[t], s.hi[t])
       IN IF r.n = 0 THEN [n |-> 0, at |-> <<>>]
          ELSE [n |-> r.n, at |-> Append([k \in DOMAIN b.at |-> b.at[k] + (r.i - b.at[1])], r.j)]
SplitPoint(texts, s) ==
  IF \E t \in DOMAIN texts : SegLen(s, t) <= 0 THEN [n |-> 0, at |-> <<>>]
  ELSE FoldLeft(LAMBDA b, t : Narrow(texts, s, b, t), [n |-> SegLen(s, 1), at |-> <<s.lo[1]>>], [k \in 1..(Len(texts) - 1) |-> k + 1])
SplitAt(s, b) ==
  LET left == [m |-> FALSE, lo |-> s.lo, hi |-> [t \in DOMAIN s.lo |-> b.at[t] - 1]]
      mid == [m |-> TRUE, lo |-> b.at, hi |-> [t \in DOMAIN s.lo |-> b.at[t] + b.n - 1]]
      right == [m |-> FALSE, lo |-> [t \in DOMAIN s.lo |-> b.at[t] + b.n], hi |-> s.hi]
  IN SelectSeq(<<left, mid, right>>, Inhabited)
RECURSIVE Refine(_, _)
Refine(texts, s) ==
  IF s.m THEN <<s>>
  ELSE LET b == SplitPoint(texts, s)
       IN IF b.n = 0 THEN <<s>>
          ELSE LET p == TLCEval(SplitAt(s, b))
               IN FoldLeft(LAMBDA acc, q : acc \o Refine(texts, q), <<>>, p)
Heuristic(texts) == IF Inhabited(Whole(texts)) THEN Refine(texts, Whole(texts)) ELSE <<>>
Lengths(segs) == [k \in DOMAIN segs |-> [m |-> segs[k].m, n |-> [t \in DOMAIN segs[k].lo |-> SegLen(segs[k], t)]]]

(***************************************************************************)
(* Transposed alignment of two texts. The state is a pair of lists of      *)
(* pieces [id, lo, hi]; id 0 is unmatched, otherwise the pieces with equal  *)
(* ids of the two lists match.                                             *)
(***************************************************************************)
Piece(id, lo, hi) == [id |-> id, lo |-> lo, hi |-> hi]
Pieces(t) == IF t = <<>> THEN <<>> ELSE <<Piece(0, 1, Len(t))>>
BestPair(x, y, px, py) ==
  FoldLeft(LAMBDA b, u : IF px[u].id # 0 \/ px[u].hi - px[u].lo + 1 <= b.n THEN b ELSE
             FoldLeft(LAMBDA c, v : IF py[v].id # 0 \/ py[v].hi - py[v].lo + 1 <= c.n THEN c
                                    ELSE LET r == Longest(x, px[u].lo, px[u].hi, y, py[v].lo, py[v].hi)
                                         IN IF r.n > c.n THEN [n |-> r.n, i |-> r.i, j |-> r.j, u |-> u, v |-> v] ELSE c,
                      b, [k \in DOMAIN py |-> k]),
           [n |-> 0, i |-> 0, j |-> 0, u |-> 0, v |-> 0], [k \in DOMAIN px |-> k])
SplitPiece(ps, u, at, n, id) ==
  LET s == ps[u]
      parts == SelectSeq(<<Piece(0, s.lo, at - 1), Piece(id, at, at + n - 1), Piece(0, at + n, s.hi)>>, LAMBDA q : q.hi >= q.lo)
  IN SubSeq(ps, 1, u - 1) \o parts \o SubSeq(ps, u + 1, Len(ps))
RECURSIVE TransposeFrom(_, _, _, _, _)
TransposeFrom(x, y, px, py, id) ==
  LET b == BestPair(x, y, px, py)
  IN IF b.n = 0 THEN [x |-> px, y |-> py]
     ELSE TransposeFrom(x, y, TLCEval(SplitPiece(px, b.u, b.i, b.n, id)), TLCEval(SplitPiece(py, b.v, b.j, b.n, id)), id + 1)
(* Matches are numbered by their order in the first text. *)
Numbered(r) ==
  LET order == SelectSeq([k \in DOMAIN r.x |-> r.x[k].id], LAMBDA d : d # 0)
      Num(d) == IF d = 0 THEN 0 ELSE CHOOSE k \in DOMAIN order : order[k] = d
      Out(ps) == [k \in DOMAIN ps |-> <<Num(ps[k].id), ps[k].hi - ps[k].lo + 1>>]
  IN [x |-> Out(r.x), y |-> Out(r.y)]
Transposed(x, y) == Numbered(TransposeFrom(x, y, Pieces(x), Pieces(y), 1))
=============================================================================
