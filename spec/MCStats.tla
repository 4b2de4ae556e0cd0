-------------------------------- MODULE MCStats --------------------------------
(* The programs that derive figures from reports, as machines.                   *)
(* Part "dist": reading a report raises the counter of every whole percent it     *)
(*   reaches. Part "cost": a running total of insertions and moves gives the cost *)
(*   for each T. Part "drop": leaving out one word at a time.                     *)
EXTENDS Stats, TLC
CONSTANTS Part
VARIABLES obs, cnt, t, run, moves, drops
vars == <<obs, cnt, t, run, moves, drops>>
Obs == {<<NatOf(a), NatOf(b)>> : a \in {0, 1, 3, 100}, b \in {0, 1, 2, 3, 71, 150}}
Moves == {[i \in 1..2 |-> <<IF i = 1 THEN 1 ELSE 3, NatOf(f[i])>>] : f \in [1..2 -> 0..2]} \cup {<<<<5, NatOf(3)>>>>}
Terms == <<<<"x", NatOf(3), NatOf(1)>>, <<"y", NatOf(2), NatOf(2)>>, <<"z", NatOf(4), <<>>>>, <<"y2", NatOf(1), <<>>>>>>
Init == /\ obs = <<>> /\ cnt = [i \in 0..100 |-> <<>>] /\ t = 0
        /\ moves \in (IF Part = "cost" THEN Moves ELSE {<<>>})
        /\ run = IF Part = "drop" THEN [count |-> NatOf(10), missed |-> NatOf(3)]
                 ELSE [count |-> NatOf(7), missed |-> NatSum([k \in DOMAIN moves |-> moves[k][2]])]
        /\ drops = <<>>
ReadReport == /\ Part = "dist" /\ Len(obs) < 2
              /\ \E o \in Obs : /\ obs' = Append(obs, o)
                                /\ cnt' = [i \in 0..100 |-> IF o[1] # <<>> /\ AtLeast(o, i) THEN NatAdd(cnt[i], o[1]) ELSE cnt[i]]
              /\ UNCHANGED <<t, run, moves, drops>>
(* count: insertions so far, missed: moves not yet priced at their length *)
Of(n) == LET I == {k \in DOMAIN moves : moves[k][1] = n} IN IF I = {} THEN <<>> ELSE moves[CHOOSE k \in I : TRUE][2]
NextT == /\ Part = "cost" /\ t < 6
         /\ run' = [count |-> NatAdd(run.count, NatScale(Of(t), t)), missed |-> NatSub(run.missed, Of(t))]
         /\ t' = t + 1
         /\ UNCHANGED <<obs, cnt, moves, drops>>
Drop == /\ Part = "drop" /\ Len(drops) < 4
        /\ \E w \in {"x", "y", "z", "y2", "absent"} :
             /\ drops' = Append(drops, w)
             /\ LET fresh == \A k \in DOMAIN drops : drops[k] # w
                    row == SelectSeq(Terms, LAMBDA r : r[1] = w)
                IN run' = IF fresh /\ row # <<>> THEN [count |-> NatSub(run.count, row[1][2]), missed |-> NatSub(run.missed, row[1][3])] ELSE run
        /\ UNCHANGED <<obs, cnt, t, moves>>
Next == ReadReport \/ NextT \/ Drop
Spec == Init /\ [][Next]_vars
(* Two reports of equal size k: J is the overall accuracy and w is 0.98 times the difference of the accuracies. *)
ASSUME \A k \in {1, 7, 250}, e1 \in {0, 1, 5}, e2 \in {0, 3, 300} :
  LET o == <<<<NatOf(k), NatOf(e1)>>, <<NatOf(k), NatOf(e2)>>>>
      j == Jackknife(o)
      dM == IMul(IntOf(100 * (e1 - e2)), IntOf(2 * k * k))
  IN /\ IMul(j.JJ, IntOf(2 * k)) = IMul(IMul(IntOf(100 * (2 * k - e1 - e2)), IntOf(2)), N(j.M))
     /\ j.W = IMul(IMul(IntOf(76832), IMul(IntOf(100000), IntOf(100000))), IMul(dM, dM))
(* Reports of equal accuracy: no deviation. *)
ASSUME LET j == Jackknife([i \in 1..5 |-> <<NatOf(10 * i), NatOf(3 * i)>>])
       IN j.W = IntOf(0) /\ LowerIs(j, IntOf(7000)) /\ UpperIs(j, IntOf(7000)) /\ ~LowerIs(j, IntOf(7001)) /\ ~UpperIs(j, IntOf(6999))
(* k reports of the same numbers count as k reports. *)
ASSUME \A k \in 1..3 : LET o == <<NatOf(10), NatOf(3)>>
                           q == <<NatOf(20), NatOf(1)>>
                           one == Jackknife([i \in 1..(k + 1) |-> IF i = 1 THEN q ELSE o])
                           all == Jackknife(<<q, Append(o, k)>>)
                       IN /\ one.n = all.n
                          /\ IMul(one.JJ, N(all.M)) = IMul(all.JJ, N(one.M))
                          /\ IMul(one.W, IMul(N(all.M), N(all.M))) = IMul(all.W, IMul(N(one.M), N(one.M)))
DistOK == Part = "dist" => /\ \A i \in 0..100 : cnt[i] = Share(SelectSeq(obs, LAMBDA o : o[1] # <<>>), i)
                           /\ \A i \in 0..99 : NatLeq(cnt[i + 1], cnt[i])
CostOK == Part = "cost" => /\ NatAdd(run.count, NatScale(run.missed, t)) = Cost(NatOf(7), moves, t)
                           /\ NatLeq(Cost(NatOf(7), moves, t), Cost(NatOf(7), moves, t + 1))
DropOK == Part = "drop" => /\ run.count = Remaining(NatOf(10), Terms, {drops[k] : k \in DOMAIN drops})
                           /\ run.missed = RemainingMissed(NatOf(3), Terms, {drops[k] : k \in DOMAIN drops})
                           /\ NatLeq(run.missed, run.count)
=============================================================================
