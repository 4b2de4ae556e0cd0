------------------------------- MODULE TraceWords -------------------------------
(* C19, C24: runs of wordfreq over files with the given code points.              *)
EXTENDS TraceBase, Words
RunLengths(s) ==      \* of a sorted sequence
  FoldLeft(LAMBDA a, x : IF a # <<>> /\ a[Len(a)][1] = x THEN [a EXCEPT ![Len(a)] = <<x, @[2] + 1>>] ELSE Append(a, <<x, 1>>), <<>>, s)
MoreFrequent(x, y) == x[2] > y[2] \/ (x[2] = y[2] /\ SeqLess(x[1], y[1]))
Ascending(s, Less(_, _)) == \A i \in 1..(Len(s) - 1) : Less(s[i], s[i + 1])
Judge(e) ==
  IF e.st # "ok" THEN {e.st}
  ELSE LET ws == TLCEval(FlattenSeq([f \in DOMAIN e.files |-> WordsOf(e.files[f])]))
           want == TLCEval(RunLengths(SortSeq(ws, SeqLess)))
       IN If("words", e.alpha = want)
          \cup If("total", e.total1 = Len(ws) /\ e.total2 = Len(ws))
          \cup If("order-by-frequency", Len(e.freq) = Len(e.alpha) /\ ToSet(e.freq) = ToSet(e.alpha) /\ Ascending(e.freq, MoreFrequent))
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
