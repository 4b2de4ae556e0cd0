-------------------------------- MODULE Align --------------------------------
(* Alignments of two texts and their cost.                                   *)
(* An alignment is a sequence of segments [m, a, b]: m = matched; a, b are   *)
(* the values of its two sides.                                              *)
EXTENDS Text

Same(x, y) == x = y /\ x # REJ     \* ~ matches nothing, not even itself

(* The least number of insertions, deletions and substitutions (one row of   *)
(* the table per character of a). It equals the least sum, over unmatched    *)
(* segments, of the longer side: MCAlign checks this.                        *)
LevRow(prev, x, b) ==
  FoldLeftDomain(LAMBDA r, j :
      Append(r, IF Same(x, b[j]) THEN prev[j]
                ELSE 1 + Min3(prev[j], prev[j+1], r[j])),
    <<prev[1] + 1>>, b)
Lev(a, b) == LET last == FoldLeft(LAMBDA row, x : LevRow(row, x, b), [j \in 1..(Len(b)+1) |-> j-1], a)
             IN last[Len(b) + 1]

(* A lower bound that is linear in the length of the texts. *)
Count(t, D) == FoldLeft(LAMBDA f, x : [f EXCEPT ![x] = @ + 1], [x \in D |-> 0], t)
BagBound(a, b) == LET D == ToSet(a) \cup ToSet(b)
                      ca == Count(a, D)
                      cb == Count(b, D)
                      Only(f, g) == FoldLeft(LAMBDA n, x : n + (IF x = REJ THEN f[x] ELSE Mx(0, f[x] - g[x])), 0, SetToSeq(D))
                  IN Mx(Only(ca, cb), Only(cb, ca))
LeastCost(a, b) == IF Len(a) > 2000 \/ Len(b) > 2000 THEN BagBound(a, b) ELSE Lev(a, b)

Flat(segs, side) == FlattenSeq([i \in DOMAIN segs |-> IF side = 1 THEN segs[i].a ELSE segs[i].b])
Cost(segs) == SumSeq([i \in DOMAIN segs |-> IF segs[i].m THEN 0 ELSE Mx(Len(segs[i].a), Len(segs[i].b))])

Lossless(segs, a, b) == Flat(segs, 1) = a /\ Flat(segs, 2) = b
MatchedEqual(segs) == \A i \in DOMAIN segs :
   segs[i].m => segs[i].a = segs[i].b /\ segs[i].a # <<>> /\ \A k \in DOMAIN segs[i].a : segs[i].a[k] # REJ
Alternates(segs) == /\ \A i \in 1..(Len(segs) - 1) : segs[i].m # segs[i+1].m
                    /\ \A i \in DOMAIN segs : ~segs[i].m => segs[i].a # <<>> \/ segs[i].b # <<>>
Valid(segs, a, b) == Lossless(segs, a, b) /\ MatchedEqual(segs) /\ Alternates(segs)
Optimal(segs, a, b) == Cost(segs) = LeastCost(a, b)
=============================================================================
