--------------------------------- MODULE MCVote ---------------------------------
(* Voting as a machine: in each round the voters vote one after the other into a   *)
(* list of candidates, then the leader is taken. For all voters within the         *)
(* constants: it ends; each round elects the declared candidate; what is output in *)
(* a matched segment is what it matches; equal voters give their text; the result  *)
(* is that of Voted.                                                               *)
EXTENDS Vote, TLC
CONSTANTS Alphabet, MaxLen, Voters, Rules   \* a rule: digits uw, sw, th
VARIABLES texts, rule, segs, k, pos, turn, cand, out
vars == <<texts, rule, segs, k, pos, turn, cand, out>>
Chars == {Ch(v, FALSE) : v \in Alphabet} \cup {Ch(97, TRUE)}
All == UNION {[1..n -> Chars] : n \in 0..MaxLen}
Vals(T) == [t \in DOMAIN T |-> Values(T[t])]
Init == /\ texts \in [1..Voters -> All] /\ rule \in {[uw |-> r \div 100, sw |-> (r \div 10) % 10, th |-> r % 10] : r \in Rules}
        /\ segs = Heuristic(Vals(texts))
        /\ k = 1 /\ pos = IF segs = <<>> THEN <<>> ELSE segs[1].lo
        /\ turn = 1 /\ cand = <<>> /\ out = <<>>
Busy == k <= Len(segs)
Mine == Choice(texts, segs[k], pos, turn)
Cast(c, w) == LET i == SelectInSeq(cand, LAMBDA x : x.v = c)
              IN IF i = 0 THEN Append(cand, [v |-> c, n |-> w]) ELSE [cand EXCEPT ![i].n = @ + w]
Ballot == /\ Busy /\ turn <= Voters
          /\ cand' = IF Mine.v = REJ THEN cand ELSE Cast(Mine.v, IF Mine.s THEN rule.sw ELSE rule.uw)
          /\ turn' = turn + 1 /\ UNCHANGED <<texts, rule, segs, k, pos, out>>
Leader == CHOOSE i \in DOMAIN cand : \A j \in DOMAIN cand : cand[j].n < cand[i].n \/ (cand[j].n = cand[i].n /\ i <= j)
Decide == /\ Busy /\ turn = Voters + 1
          /\ turn' = 1 /\ cand' = <<>> /\ UNCHANGED <<texts, rule, segs>>
          /\ IF cand # <<>> /\ cand[Leader].v = End
             THEN k' = k + 1 /\ pos' = (IF k < Len(segs) THEN segs[k + 1].lo ELSE <<>>) /\ out' = out
             ELSE /\ k' = k /\ pos' = [t \in DOMAIN pos |-> IF pos[t] > segs[k].hi[t] THEN pos[t] ELSE pos[t] + 1]
                  /\ out' = Append(out, IF cand = <<>> THEN Ch(REJ, FALSE) ELSE Ch(cand[Leader].v, cand[Leader].n <= rule.th))
Next == Ballot \/ Decide
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Elects == Busy /\ turn = Voters + 1 =>
            LET o == Outcome([t \in 1..Voters |-> Choice(texts, segs[k], pos, t)], rule)
            IN IF cand = <<>> THEN o = Ch(REJ, FALSE)
               ELSE o.v = cand[Leader].v /\ (o.v # End => o.s = (cand[Leader].n <= rule.th))
Matches == Busy /\ segs[k].m /\ turn = Voters + 1 /\ pos[1] <= segs[k].hi[1] => cand = <<[v |-> texts[1][pos[1]].v, n |-> cand[1].n]>>
Unanimous == ~Busy /\ (\A t \in 1..Voters : Values(texts[t]) = Values(texts[1])) => Values(out) = Values(texts[1])
NoThreshold == rule.th = 0 => \A i \in DOMAIN out : ~out[i].s
Agrees == ~Busy => out = Voted(texts, segs, rule)
Bounded == Len(out) <= SumSeq([i \in DOMAIN segs |-> MaxSeq([t \in 1..Voters |-> SegLen(segs[i], t)])])
Ends == <>(~Busy)
=============================================================================
