------------------------------ MODULE TraceAlign ------------------------------
(* C01: alignments recorded from synctext a b. *)
EXTENDS TraceBase, Align
Low(x, ci) == IF ci /\ x \in 65..90 THEN x + 32 ELSE x
Read(raw, ci) == LET v == Values(ReadText(raw)) IN [i \in DOMAIN v |-> Low(v[i], ci)]
Judge(e) ==
  IF e.st # "ok" THEN {e.st}
  ELSE LET a == Read(e.a, e.ci)
           b == Read(e.b, e.ci)
           s == e.segs
       IN If("lossless", Lossless(s, a, b)) \cup If("matched-equal", MatchedEqual(s))
          \cup If("alternates", Alternates(s)) \cup If("optimal", Optimal(s, a, b))
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
