------------------------------- MODULE TraceStats -------------------------------
(* C10, C11, C18, C22: output computed from reports.                             *)
EXTENDS TraceBase, Stats, Moves
Prefix(s, i) == {s[k] : k \in 1..i}
JudgeDist(e) ==
  IF Counts(e.obs) = <<>> THEN If("nothing-to-list", e.out = <<>>)
  ELSE If("lines", [k \in DOMAIN e.out |-> e.out[k][1]] = [k \in 1..101 |-> k - 1])
       \cup If("share", \A k \in DOMAIN e.out : DistLine(e.obs, e.out[k][1], e.out[k][2]))
JudgeCI(e) ==
  IF NonEmpty(e.obs) < 2 THEN If("too-few-observations", e.rc > 0 /\ e.out.none)
  ELSE IF e.rc # 0 \/ e.out.none THEN {"failed"}
  ELSE LET j == Jackknife(e.obs)
       IN If("observations", e.out.n = Number(e.obs)) \cup If("total", e.out.count = Counts(e.obs)) \cup If("errors", e.out.missed = Missed(e.obs))
          \cup If("accuracy", Pct(e.out.acc, Diff(Counts(e.obs), Missed(e.obs)), Counts(e.obs)))
          \cup If("lower", LowerIs(j, e.out.lower.v)) \cup If("upper", UpperIs(j, e.out.upper.v))
JudgeCost(e) ==
  LET c(r, t) == N(Cost(r.ins, r.moves, t))
  IN If("lines", [k \in DOMAIN e.out |-> e.out[k][1]] = [k \in 1..101 |-> k - 1])
     \cup If("cost", \A k \in DOMAIN e.out : LET t == e.out[k][1]
                                             IN e.out[k][2] = IF Len(e.reps) = 1 THEN c(e.reps[1], t) ELSE ISub(c(e.reps[1], t), c(e.reps[2], t)))
(* From the texts to the curves: each pair of texts is given by the blocks of its transposed alignment (block: number in the correct   *)
(* text and length, in the order of the generated text) and the number of characters of the correct text that are in no block.        *)
JudgeChain(e) ==
  LET mv(p) == TLCEval(AllMoves(p.blocks).moves)
      M == [i \in DOMAIN e.pairs |-> mv(e.pairs[i])]
      at(n, t) == IF n < t THEN n ELSE t
      c(i, t) == e.pairs[i].ins + FoldLeft(LAMBDA a, n : a + at(n, t), 0, M[i])
  IN If("lines", [k \in DOMAIN e.out |-> e.out[k][1]] = [k \in 1..101 |-> k - 1])
     \cup If("cost-of-texts", \A k \in DOMAIN e.out : LET t == e.out[k][1] IN e.out[k][2] = IntOf(IF Len(M) = 1 THEN c(1, t) ELSE c(1, t) - c(2, t)))
JudgeNonstop(e) ==
  LET left(i) == Remaining(e.count, e.terms, Prefix(e.words, i))
      miss(i) == RemainingMissed(e.missed, e.terms, Prefix(e.words, i))
      n == Cardinality({i \in 0..Len(e.words) : left(i) # <<>>})
  IN If("lines", [k \in DOMAIN e.out |-> e.out[k][1]] = [k \in 1..n |-> k - 1])
     \cup If("accuracy", \A k \in DOMAIN e.out : e.out[k][1] <= Len(e.words) => Pct(e.out[k][2], Diff(left(e.out[k][1]), miss(e.out[k][1])), left(e.out[k][1])))
(* The same for very long stopword files, given as runs <<word, number>>; the output is runs <<first line, lines, accuracy>>. *)
JudgeNonstopRuns(e) ==
  LET starts == TLCEval(FoldLeft(LAMBDA a, w : Append(a, a[Len(a)] + w[2]), <<1>>, e.words))
      last == starts[Len(starts)] - 1
      dropped(i) == {e.words[k][1] : k \in {q \in DOMAIN e.words : starts[q] <= i}}
      left(i) == Remaining(e.count, e.terms, dropped(i))
      miss(i) == RemainingMissed(e.missed, e.terms, dropped(i))
      gone == {i \in {0} \cup {starts[k] : k \in DOMAIN e.words} : left(i) = <<>>}
      n == IF gone = {} THEN last + 1 ELSE CHOOSE i \in gone : \A j \in gone : i <= j
      ends(r) == r[1] + r[2] - 1
      points == {i \in {0} \cup {starts[k] : k \in DOMAIN e.words} \cup UNION {{r[1], ends(r)} : r \in ToSet(e.out)} : i < n}
      at(i) == CHOOSE k \in DOMAIN e.out : e.out[k][1] <= i /\ i <= ends(e.out[k])
      numbered == /\ \A k \in DOMAIN e.out : e.out[k][1] = (IF k = 1 THEN 0 ELSE ends(e.out[k - 1]) + 1)
                  /\ (IF e.out = <<>> THEN 0 ELSE ends(e.out[Len(e.out)]) + 1) = n
  IN IF ~numbered THEN {"lines"}
     ELSE If("accuracy", \A i \in points : Pct(e.out[at(i)][3], Diff(left(i), miss(i)), left(i)))
Judge(e) == IF e.st # "ok" THEN {e.st}
            ELSE CASE e.k = "dist" -> JudgeDist(e) [] e.k = "ci" -> JudgeCI(e) [] e.k = "cost" -> JudgeCost(e) [] e.k = "chain" -> JudgeChain(e) [] e.k = "nonstop-runs" -> JudgeNonstopRuns(e) [] OTHER -> JudgeNonstop(e)
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
