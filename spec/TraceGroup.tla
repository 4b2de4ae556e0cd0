------------------------------- MODULE TraceGroup -------------------------------
(* C25: groupacc. e.group: code points of the group file; e.rows: the characters  *)
(* of the report, <<code point, count, missed>>; e.out: lines <<displayed form,   *)
(* count, missed, percentage>>; e.total: <<count, missed, percentage>>.           *)
EXTENDS TraceBase, Stats, CharTable, Group
Judge(e) ==
  IF e.st # "ok" THEN {e.st}
  ELSE LET g == GroupLines(Values(ReadText(e.group)), e.rows)
           want == [i \in DOMAIN g |-> <<ShownInline(g[i][1]), g[i][2], g[i][3]>>]
           sum(k) == NatSum([i \in DOMAIN g |-> g[i][k]])
       IN If("lines", [i \in DOMAIN e.out |-> <<e.out[i][1], e.out[i][2], e.out[i][3]>>] = want)
          \cup If("percent", \A i \in DOMAIN e.out : Pct(e.out[i][4], Diff(e.out[i][2], e.out[i][3]), e.out[i][2]))
          \cup If("total", e.total[1] = sum(2) /\ e.total[2] = sum(3) /\ Pct(e.total[3], Diff(sum(2), sum(3)), sum(2)))
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
