-------------------------------- MODULE MCSync --------------------------------
(* The heuristic alignment as a machine that splits unmatched segments in any   *)
(* order. For all texts within the constants: it ends, the result does not      *)
(* depend on the order, segments rebuild every text, matched ones are equal and *)
(* free of ~, two matches are never adjacent, and what is left cannot be split. *)
EXTENDS Sync, TLC
CONSTANTS Alphabet, MaxLen, Voters
VARIABLES texts, segs
vars == <<texts, segs>>
All == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == /\ texts \in [1..Voters -> All]
        /\ segs = IF Inhabited(Whole(texts)) THEN <<Whole(texts)>> ELSE <<>>
CanSplit(s) == ~s.m /\ SplitPoint(texts, s).n > 0
Split(k) == /\ CanSplit(segs[k])
            /\ segs' = SubSeq(segs, 1, k - 1) \o SplitAt(segs[k], SplitPoint(texts, segs[k])) \o SubSeq(segs, k + 1, Len(segs))
            /\ UNCHANGED texts
Next == \E k \in DOMAIN segs : Split(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Slice(k, t) == SubSeq(texts[t], segs[k].lo[t], segs[k].hi[t])
Rebuilds == \A t \in DOMAIN texts : FlattenSeq([k \in DOMAIN segs |-> Slice(k, t)]) = texts[t]
Equal == \A k \in DOMAIN segs : segs[k].m => /\ \A t \in DOMAIN texts : Slice(k, t) = Slice(k, 1)
                                             /\ \A i \in DOMAIN Slice(k, 1) : Slice(k, 1)[i] # REJ
Apart == \A k \in 1..(Len(segs) - 1) : ~(segs[k].m /\ segs[k + 1].m)
Done == \A k \in DOMAIN segs : ~CanSplit(segs[k])
Confluent == Done => segs = Heuristic(texts)
(* With two texts nothing common is left; with more, nothing that the narrowing finds. *)
Exhausted == Done /\ Voters = 2 => \A k \in DOMAIN segs : segs[k].m \/ \A i \in segs[k].lo[1]..segs[k].hi[1], j \in segs[k].lo[2]..segs[k].hi[2] :
                                                              texts[1][i] # texts[2][j] \/ texts[1][i] = REJ
ScanIsCommon == Len(segs) = 1 => \A u \in DOMAIN texts, v \in DOMAIN texts :
   Longest(texts[u], 1, Len(texts[u]), texts[v], 1, Len(texts[v])) = Common(texts[u], 1, Len(texts[u]), texts[v], 1, Len(texts[v]))
Terminates == <>Done
=============================================================================
