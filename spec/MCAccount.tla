------------------------------ MODULE MCAccount ------------------------------
(* The account as a machine that reads an alignment segment by segment.       *)
EXTENDS Account
CONSTANTS MaxSegs, MaxSide
VARIABLES acc, n, last
vars == <<acc, n, last>>
Chars == {Ch(97, FALSE), Ch(97, TRUE), Ch(REJ, FALSE)}
Sides == UNION {[1..k -> Chars] : k \in 0..MaxSide}
Correct(t) == \A i \in DOMAIN t : ~t[i].s
Segs == {[m |-> FALSE, a |-> x, b |-> y] : x \in {t \in Sides : Correct(t)}, y \in Sides} \cup
        {[m |-> TRUE, a |-> <<Ch(97, FALSE)>>, b |-> <<Ch(97, s)>>] : s \in {FALSE, TRUE}}
Init == acc = EmptyAccount /\ n = 0 /\ last = [m |-> FALSE, a |-> <<>>, b |-> <<>>]
Next == /\ n < MaxSegs
        /\ \E s \in Segs : /\ s.a # <<>> \/ s.b # <<>>
                           /\ (n > 0 => s.m # last.m)
                           /\ acc' = Step(acc, s) /\ last' = s
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars
Sound == /\ Consistent(acc)
         /\ acc.false <= acc.suspects
         /\ (acc.rejects + acc.suspects = acc.false => acc.marked.errors = 0)
Grows == [][/\ acc'.errors - acc.errors \in 0..Mx(Len(last'.a), Len(last'.b))
            /\ acc'.chars >= acc.chars
            /\ (last'.m => acc'.errors = acc.errors)]_vars
=============================================================================
