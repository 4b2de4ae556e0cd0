------------------------------- MODULE TraceRuns -------------------------------
(* C24: frequencies of very long words (of ASCII letters, separated by spaces).   *)
(* e.words has <<word, how often it occurs there>> in the order of the texts.     *)
EXTENDS TraceBase, RunWords
Total(ws) == FoldLeft(LAMBDA n, v : n + v[2], 0, ws)
Occurs(ws, w) == Total(SelectSeq(ws, LAMBDA v : v[1] = w))
More(a, b) == a[2] > b[2] \/ (a[2] = b[2] /\ RunLess(a[1], b[1]))
Judge(e) ==
  IF e.st # "ok" THEN {e.st}
  ELSE LET W == {e.words[i][1] : i \in DOMAIN e.words}
           ok(s) == {s[i] : i \in DOMAIN s} = {<<w, Occurs(e.words, w)>> : w \in W}
       IN If("words", ok(e.alpha) /\ \A i \in 1..(Len(e.alpha) - 1) : RunLess(e.alpha[i][1], e.alpha[i + 1][1]))
          \cup If("order-by-frequency", ok(e.freq) /\ \A i \in 1..(Len(e.freq) - 1) : More(e.freq[i], e.freq[i + 1]))
          \cup If("total", e.total1 = Total(e.words) /\ e.total2 = Total(e.words))
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
