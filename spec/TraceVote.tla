------------------------------- MODULE TraceVote -------------------------------
(* C12, C13: runs of vote. e.texts: the raw voters in argument order; e.uw, e.sw: *)
(* weights; e.m/e.n: threshold (n = 0: none); e.lens: the segments that synctext   *)
(* shows for the voters, if recorded; e.dist (-O -D): the order and distances.     *)
EXTENDS TraceBase, Vote, CharTable
RECURSIVE Build(_, _, _, _)
Build(lens, k, at, acc) ==
  IF k > Len(lens) THEN acc
  ELSE LET hi == TLCEval([t \in DOMAIN at |-> at[t] + lens[k][2][t] - 1])
       IN Build(lens, k + 1, TLCEval([t \in DOMAIN at |-> hi[t] + 1]), Append(acc, [m |-> lens[k][1], lo |-> at, hi |-> hi]))
Covers(segs, T) == IF segs = <<>> THEN \A t \in DOMAIN T : T[t] = <<>> ELSE \A t \in DOMAIN T : segs[Len(segs)].hi[t] = Len(T[t])
Rendered(t) == FlattenSeq([i \in DOMAIN t |-> ShownMarked(t[i], TRUE)])
JudgeVote(e, T) ==
  LET segs == TLCEval(IF e.haslens THEN Build(e.lens, 1, [t \in DOMAIN T |-> 1], <<>>) ELSE Heuristic([t \in DOMAIN T |-> Values(T[t])]))
      rule == Rule(e.uw, e.sw, Len(T), e.m, e.n)
  IN IF ~Covers(segs, T) THEN {"alignment-incomplete"}
     ELSE If("voted", e.out = Rendered(Voted(T, segs, rule)))
JudgeOpt(e, T) ==
  LET d == TLCEval(Distances2(T))
      o == TLCEval(ByDistance(d))
      chosen == TLCEval(SubSeq(o, 1, Mn(3, Len(o))))
  IN If("distances", ~e.hasdist \/ e.dist = [i \in DOMAIN o |-> <<o[i], d[o[i]]>>])
     \cup JudgeVote(e, TLCEval([i \in DOMAIN chosen |-> T[chosen[i]]]))
(* Huge texts, given as runs; if all are single runs of one character, the vote is the run of median length of those chosen. *)
JudgeFar(e) ==
  LET d == TLCEval(DistancesOf(TLCEval([t \in DOMAIN e.runs |-> RunPairs(e.runs[t])])))
      o == TLCEval(ByDistance(d))
      ns == SortSeq([i \in 1..3 |-> e.runs[o[i]][1][2]], <)
  IN If("distances", e.dist = [i \in DOMAIN o |-> <<o[i], d[o[i]]>>])
     \cup If("voted", e.outruns = <<<<e.runs[1][1][1], ns[2]>>>>)
Judge(e) == IF e.st # "ok" THEN {e.st}
            ELSE IF "runs" \in DOMAIN e THEN JudgeFar(e)
            ELSE LET T == TLCEval([t \in DOMAIN e.texts |-> ReadText(e.texts[t])])
                 IN IF e.opt THEN JudgeOpt(e, T) ELSE JudgeVote(e, T)
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
