----------------------------- MODULE TraceWordacc -----------------------------
(* C20, C21: runs of wordacc. An event has the code points of the files and   *)
(* the report as [words, missed, acc] and tables of rows                      *)
(* <<key, count, missed, percentage in hundredths or NoPct>>; with k = "long" *)
(* the words are given (as numbers), and the report's counts; with k = "range" *)
(* the words of a text are the numbers from [1] to [2]; with k = "runs" the    *)
(* texts have runs of one word each.                                          *)
EXTENDS TraceBase, Words, Common, StopList
NoPct == -999999999
MaxLength == 50  MaxOccurs == 10  MaxCommon == 65535
Abs(x) == IF x < 0 THEN -x ELSE x
(* h is the percentage of the words recognized, rounded (a tie either way) *)
Right(h, count, missed) == IF count = 0 THEN h = NoPct ELSE 2 * Abs((h * count) - (10000 * (count - missed))) <= count

INSTANCE Breakdown WITH MaxLength <- 50, MaxOccurs <- 10, MaxPhrase <- 8
Tables == {"stopterm", "nonterm", "stop", "non", "distinct", "phrase"}
TotalLines == {"stop_total", "non_total", "distinct_total"}
Counts(rows) == [i \in DOMAIN rows |-> <<rows[i][1], rows[i][2], rows[i][3]>>]
Observed(r) == [t \in Tables \cup TotalLines |-> IF t \in Tables THEN Counts(r[t]) ELSE <<r[t][1], r[t][2]>>]
Wrong(o, want) == {t \in DOMAIN want : o[t] # want[t]}
(* What every recognized set implies, when it is one of many. *)
Bounded(o, want, n) ==
  UNION { If(t, Len(o[t]) = Len(want[t]) /\ \A i \in DOMAIN o[t] : o[t][i][1] = want[t][i][1] /\ o[t][i][2] = want[t][i][2] /\ o[t][i][3] <= o[t][i][2]) : t \in Tables }
  \cup If("sum-of-missed", /\ o.stop_total[2] + o.non_total[2] = n
                           /\ Totals(o.stop)[2] = o.stop_total[2] /\ Totals(o.stopterm)[2] = o.stop_total[2]
                           /\ Totals(o.non)[2] = o.non_total[2] /\ Totals(o.nonterm)[2] = o.non_total[2]
                           /\ Totals(o.distinct) = o.distinct_total
                           /\ (o.phrase # <<>> => o.phrase[1][3] = n))
  \cup If("totals", o.stop_total[1] = want.stop_total[1] /\ o.non_total[1] = want.non_total[1] /\ o.distinct_total[1] = want.distinct_total[1])
(* Missed counts of a breakdown follow from those of the terms. *)
  \cup If("breakdown", LET t == o.nonterm  s == o.stopterm
                           byLength(q) == ByNumber([i \in DOMAIN q |-> <<Mn(Characters(q[i][1]), MaxLength), q[i][2], q[i][3]>>], MaxLength)
                       IN /\ o.non = byLength(t) /\ o.stop = byLength(s)
                          /\ o.distinct = ByNumber([i \in DOMAIN t |-> <<Mn(t[i][2], MaxOccurs + 1), 1, IF t[i][2] = t[i][3] THEN 1 ELSE 0>>], MaxOccurs + 1))
Shape(r) ==
  If("parts", /\ r.hasphrase = (r.words > 0) /\ r.hasstop = (r.stop_total[1] > 0) /\ r.hasnon = (r.non_total[1] > 0))
  \cup If("percent", /\ Right(r.acc, r.words, r.missed)
                     /\ \A t \in Tables : \A i \in DOMAIN r[t] : Right(r[t][i][4], r[t][i][2], r[t][i][3])
                     /\ \A t \in TotalLines : Right(r[t][3], r[t][1], r[t][2]))
Sub(A, B) == SelectSeq(A, LAMBDA x : x \in ToSet(B))
Positions(A, B) == LET s == ToSet(B) IN {i \in DOMAIN A : A[i] \in s}
JudgeReport(e) ==
  LET A == TLCEval(WordsOf(e.a))
      B == TLCEval(WordsOf(e.b))
      stops == TLCEval(IF e.S.use THEN ToSet(StopwordsIn(e.S.raw)) ELSE BuiltIn)
      n == TLCEval(LCS(A, B))
      r == e.r
      o == TLCEval(Observed(r))
      few == Len(A) <= 8
      forced == TLCEval(IF few THEN {} ELSE Forced(A, B))
      sets == IF few THEN Kept(A, B) ELSE {forced}
      exact == few \/ Cardinality(forced) = n
      wrong == TLCEval({Wrong(o, Report(A, stops, S)) : S \in sets})
  IN If("words", r.words = Len(A)) \cup If("misrecognized", r.missed = Len(A) - n) \cup Shape(r)
     \cup IF exact THEN (IF {} \in wrong THEN {} ELSE CHOOSE w \in wrong : \A v \in wrong : Cardinality(w) <= Cardinality(v))
          ELSE Bounded(o, Report(A, stops, forced), Len(A) - n)
JudgeLong(e) ==   \* the texts agree on the words that both have, each of which occurs once
  LET sb == TLCEval(ToSet(e.b))
      sa == TLCEval(ToSet(e.a))
      A == SelectSeq(e.a, LAMBDA x : x \in sb)
      B == SelectSeq(e.b, LAMBDA x : x \in sa)
  IN IF A # B THEN {"not-in-the-scope"}
     ELSE If("words", e.r.words = Len(e.a)) \cup If("misrecognized", e.r.missed = Len(e.a) - Len(A))
JudgeRange(e) ==  \* the words numbered e.a[1] to e.a[2], and e.b[1] to e.b[2]
  LET common == Mx(0, Mn(e.a[2], e.b[2]) - Mx(e.a[1], e.b[1]) + 1)
      n == e.a[2] - e.a[1] + 1
  IN IF e.st = "refused" THEN If("refused", common > MaxCommon)
     ELSE If("limit", common <= MaxCommon) \cup If("words", e.r.words = n) \cup If("misrecognized", e.r.missed = n - common)
JudgeRuns(e) ==   \* e.a has runs <<code points, times, recognized>> of different words; the generated text has the recognized runs
  LET words == TLCEval([i \in DOMAIN e.a |-> WordsOf(e.a[i][1])])
      runs == TLCEval([i \in DOMAIN e.a |-> <<words[i][1], e.a[i][2], e.a[i][3]>>])
      stops == TLCEval(IF e.S.use THEN ToSet(StopwordsIn(e.S.raw)) ELSE BuiltIn)
      count(s) == FoldLeft(LAMBDA x, y : x + y[2], 0, s)
  IN IF (\E i \in DOMAIN words : Len(words[i]) # 1) \/ Cardinality({runs[i][1] : i \in DOMAIN runs}) # Len(runs) THEN {"not-in-the-scope"}
     ELSE If("words", e.r.words = count(runs)) \cup If("misrecognized", e.r.missed = count(SelectSeq(runs, LAMBDA x : ~x[3])))
          \cup Shape(e.r) \cup Wrong(Observed(e.r), ReportOnRuns(runs, stops))
Judge(e) == IF e.k = "range" /\ e.st \in {"ok", "refused"} THEN JudgeRange(e) ELSE IF e.st # "ok" THEN {e.st} ELSE IF e.k = "runs" THEN JudgeRuns(e) ELSE IF e.k = "long" THEN JudgeLong(e) ELSE JudgeReport(e)
TraceNext == l < Len(Log) /\ Consume(Judge(Log[l + 1]))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
