------------------------------- MODULE Breakdown -------------------------------
(* C21: what the report says about the words A of the correct text when those at *)
(* the positions R are recognized: rows <<key, count, missed>>. Words are        *)
(* sequences of bytes.                                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS MaxLength, MaxOccurs, MaxPhrase
LOCAL Least(x, y) == IF x < y THEN x ELSE y
LOCAL BytesLess(u, v) == \/ \E j \in DOMAIN u : j \in DOMAIN v /\ u[j] < v[j] /\ \A k \in 1..(j - 1) : u[k] = v[k]
                         \/ Len(u) < Len(v) /\ SubSeq(v, 1, Len(u)) = u
Characters(w) == Len(SelectSeq(w, LAMBDA x : (x \div 64) # 2))
Sum(f(_), s) == FoldLeft(LAMBDA x, y : x + f(y), 0, s)
(* Rows for keys 1..n with the counts of the items that have that key. An item is <<key, count, missed>>. *)
ByNumber(items, n) ==
  SelectSeq([q \in 1..n |-> LET mine == SelectSeq(items, LAMBDA x : x[1] = q)
                            IN <<q, Sum(LAMBDA x : x[2], mine), Sum(LAMBDA x : x[3], mine)>>], LAMBDA r : r[2] > 0)
(* The terms of the words with these positions, ascending. *)
Terms(A, positions, R) ==
  LET ws == SortSeq([i \in DOMAIN positions |-> <<A[positions[i]], IF positions[i] \in R THEN 0 ELSE 1>>], LAMBDA x, y : BytesLess(x[1], y[1]))
  IN FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ acc[Len(acc)][1] = x[1]
                              THEN [acc EXCEPT ![Len(acc)] = <<x[1], @[2] + 1, @[3] + x[2]>>] ELSE Append(acc, <<x[1], 1, x[2]>>), <<>>, ws)
Phrases(A, R) ==
  LET n == Len(A)
      at(q) == n + 1 - q
      missed(q) == Cardinality({i \in 1..at(q) : \E j \in i..(i + q - 1) : j \notin R})
  IN SelectSeq([q \in 1..MaxPhrase |-> <<q, IF at(q) > 0 THEN at(q) ELSE 0, IF at(q) > 0 THEN missed(q) ELSE 0>>], LAMBDA r : r[2] > 0)
Totals(items) == <<Sum(LAMBDA x : x[2], items), Sum(LAMBDA x : x[3], items)>>
(* The report on words with these terms, of stopwords and of others, and phrases. *)
ReportOf(st, nt, phrases) ==
  LET byLength(t) == ByNumber([i \in DOMAIN t |-> <<Least(Characters(t[i][1]), MaxLength), t[i][2], t[i][3]>>], MaxLength)
      dn == [i \in DOMAIN nt |-> <<Least(nt[i][2], MaxOccurs + 1), 1, IF nt[i][2] = nt[i][3] THEN 1 ELSE 0>>]
  IN [stopterm |-> st, nonterm |-> nt, stop |-> byLength(st), non |-> byLength(nt), distinct |-> ByNumber(dn, MaxOccurs + 1),
      phrase |-> phrases, stop_total |-> Totals(st), non_total |-> Totals(nt), distinct_total |-> Totals(dn)]
(* The whole report when the words at the positions R are recognized. *)
Report(A, stops, R) ==
  LET pos == [i \in DOMAIN A |-> i]
      st == TLCEval(Terms(A, SelectSeq(pos, LAMBDA i : A[i] \in stops), R))
      nt == TLCEval(Terms(A, SelectSeq(pos, LAMBDA i : A[i] \notin stops), R))
  IN ReportOf(st, nt, Phrases(A, R))
(* The same for runs <<word, times, recognized>>, no two of the same word. *)
TermsOfRuns(runs) == SortSeq([i \in DOMAIN runs |-> <<runs[i][1], runs[i][2], IF runs[i][3] THEN 0 ELSE runs[i][2]>>], LAMBDA x, y : BytesLess(x[1], y[1]))
PhrasesOfRuns(runs) ==
  LET n == Sum(LAMBDA x : x[2], runs)
      \* the lengths of the longest stretches of recognized words
      stretches == TLCEval(FoldLeft(LAMBDA acc, x : IF x[3] THEN [acc EXCEPT ![Len(acc)] = @ + x[2]] ELSE Append(acc, 0), <<0>>, runs))
      within(q, m) == IF m >= q THEN (m + 1) - q ELSE 0
      good(q) == FoldLeft(LAMBDA x, m : x + within(q, m), 0, stretches)
  IN SelectSeq([q \in 1..MaxPhrase |-> <<q, within(q, n), within(q, n) - good(q)>>], LAMBDA r : r[2] > 0)
ReportOnRuns(runs, stops) ==
  ReportOf(TLCEval(TermsOfRuns(SelectSeq(runs, LAMBDA x : x[1] \in stops))), TLCEval(TermsOfRuns(SelectSeq(runs, LAMBDA x : x[1] \notin stops))), PhrasesOfRuns(runs))
(* Runs written out. *)
WordsOfRuns(runs) == FoldLeft(LAMBDA acc, x : acc \o [i \in 1..x[2] |-> x[1]], <<>>, runs)
RecognizedInRuns(runs) == LET flags == FoldLeft(LAMBDA acc, x : acc \o [i \in 1..x[2] |-> x[3]], <<>>, runs) IN {i \in DOMAIN flags : flags[i]}
=============================================================================
