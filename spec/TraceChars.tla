------------------------------- MODULE TraceChars -------------------------------
(* C27: the code points e.raw as a text: its accuracy report against itself       *)
(* (e.missed = 0) or against nothing (1), this report summed twice, a group       *)
(* accuracy report of the report for the same text, and its 1-gram statistics.    *)
EXTENDS TraceBase, CharTable, CharClass
Collect(vs) == FoldLeft(LAMBDA a, x : IF a # <<>> /\ a[Len(a)][1] = x THEN [a EXCEPT ![Len(a)] = <<x, @[2] + 1>>] ELSE Append(a, <<x, 1>>), <<>>, vs)
Rows(cs, m, f) == [i \in DOMAIN cs |-> <<ShownInline(cs[i][1]), f * cs[i][2], f * m * cs[i][2]>>]
(* Consecutive characters have consecutive classes, except that classes may recur: collected by rank. *)
Classes(cs, m) ==
  LET r == TLCEval([i \in DOMAIN cs |-> ClassRank(ClassOf(cs[i][1]))])
      ranks == SetToSortSeq(ToSet(r), LAMBDA x, y : x < y)
      n(k) == FoldLeftDomain(LAMBDA s, i : IF r[i] = k THEN s + cs[i][2] ELSE s, 0, cs)
  IN [i \in DOMAIN ranks |-> <<IF ranks[i] = 0 THEN "Unassigned" ELSE Ranges[ranks[i]][3], n(ranks[i]), m * n(ranks[i])>>]
Judge(e) ==
  IF e.st # "ok" THEN {e.st}
  ELSE LET t == TLCEval(Values(ReadText(e.raw)))
           all == TLCEval(Collect(SortSeq(t, LAMBDA x, y : x < y)))
           cs == TLCEval(SelectSeq(all, LAMBDA x : x[1] # REJ))
           count == [i \in DOMAIN cs |-> cs[i][1]]
           g == SelectSeq(t, LAMBDA c : c \notin {REJ, SP, NL})
           of(c) == cs[CHOOSE i \in DOMAIN cs : cs[i][1] = c][2]
       IN If("report", e.rows = Rows(cs, e.missed, 1))
          \cup If("classes", e.classes = Classes(cs, e.missed))
          \cup If("sum", e.sum = Rows(cs, e.missed, 2))
          \cup If("group", e.group = [i \in DOMAIN g |-> <<ShownInline(g[i]), of(g[i]), e.missed * of(g[i])>>])
          \cup If("ngram", e.ngram = [i \in DOMAIN all |-> <<ShownInline(all[i][1]), all[i][2]>>])
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
