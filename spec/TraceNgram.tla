------------------------------- MODULE TraceNgram -------------------------------
(* C23: runs of ngram over files with the given code points, or (in normal form)  *)
(* the given runs <<code point, suspect?, length>>.                               *)
EXTENDS TraceBase, CharTable, Ngrams
RowBefore(x, y) == x[2] > y[2] \/ (x[2] = y[2] /\ (x[3] > y[3] \/ (x[3] = y[3] /\ SeqLess(x[1], y[1]))))
Display(rows) == [i \in DOMAIN rows |-> <<FlattenSeq([k \in DOMAIN rows[i][1] |-> ShownInline(rows[i][1][k])]), rows[i][2], rows[i][3]>>]
Unit(ws) == [k \in DOMAIN ws |-> <<ws[k][1], 1, IF ws[k][2] THEN 1 ELSE 0>>]
Judge(e) ==
  IF e.st # "ok" THEN {e.st}
  ELSE LET ws == TLCEval(IF "runs" \in DOMAIN e THEN FlattenSeq([f \in DOMAIN e.runs |-> Weighted(e.runs[f], e.n)])
                         ELSE Unit(TLCEval(FlattenSeq([f \in DOMAIN e.files |-> Windows(TLCEval(ReadText(e.files[f])), e.n)]))))
           rows == TLCEval(Merged(SeqLess, ws))
           total == <<FoldLeft(LAMBDA a, x : a + x[2], 0, ws), FoldLeft(LAMBDA a, x : a + x[3], 0, ws)>>
       IN If("by-value", e.value = Display(rows))
          \cup If("by-count", e.count = Display(SortSeq(rows, RowBefore)))
          \cup If("totals", e.total1 = total /\ e.total2 = total)
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
