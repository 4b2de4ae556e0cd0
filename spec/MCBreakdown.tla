------------------------------ MODULE MCBreakdown ------------------------------
(* How the report of the words is counted, as a machine: each word in turn under  *)
(* its term; then the terms of the two tables, in any order, under their lengths  *)
(* and numbers of occurrences; then the phrases that start at each word, in turn. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANT MaxWords
INSTANCE Breakdown WITH MaxLength <- 2, MaxOccurs <- 2, MaxPhrase <- 3
Pool == {<<97>>, <<98, 195, 169>>, <<99, 226, 130, 172, 99>>}    \* of 1, 2 and 3 characters
VARIABLES words, stops, kept,     \* the words, those that are stopwords, the positions of the recognized ones
          stage, at, left,        \* what is counted next
          term,                   \* term -> <<count, missed>>
          len,                    \* <<stopword?, length>> -> <<count, missed>>
          occ, phr, tot           \* occurrences, phrases, totals -> <<count, missed>>
vars == <<words, stops, kept, stage, at, left, term, len, occ, phr, tot>>
Add(f, x, c, m) == [f EXCEPT ![x] = <<@[1] + c, @[2] + m>>]
Zero(S) == [x \in S |-> <<0, 0>>]
Init == /\ words \in UNION {[1..n -> Pool] : n \in 0..MaxWords} /\ stops \in SUBSET Pool /\ kept \in SUBSET (DOMAIN words)
        /\ stage = "words" /\ at = 1 /\ left = {}
        /\ term = Zero(Pool) /\ len = Zero(BOOLEAN \X (1..2)) /\ occ = Zero(1..3) /\ phr = Zero(1..3) /\ tot = Zero({"stop", "non", "distinct", "all"})
Missed(i) == IF i \in kept THEN 0 ELSE 1
CountWord == /\ stage = "words" /\ at <= Len(words)
             /\ term' = Add(term, words[at], 1, Missed(at)) /\ at' = at + 1
             /\ UNCHANGED <<words, stops, kept, stage, left, len, occ, phr, tot>>
EndWords == /\ stage = "words" /\ at > Len(words)
            /\ stage' = "terms" /\ left' = {w \in Pool : term[w][1] > 0}
            /\ UNCHANGED <<words, stops, kept, at, term, len, occ, phr, tot>>
CountTerm == /\ stage = "terms"
             /\ \E w \in left :
                 LET c == term[w][1]  m == term[w][2]  s == w \in stops
                     l == IF Characters(w) < 2 THEN Characters(w) ELSE 2
                     all == IF c = m THEN 1 ELSE 0
                     t1 == Add(Add(tot, "all", c, m), IF s THEN "stop" ELSE "non", c, m)
                 IN /\ left' = left \ {w}
                    /\ len' = Add(len, <<s, l>>, c, m)
                    /\ occ' = IF s THEN occ ELSE Add(occ, IF c > 2 THEN 3 ELSE c, 1, all)
                    /\ tot' = IF s THEN t1 ELSE Add(t1, "distinct", 1, all)
             /\ UNCHANGED <<words, stops, kept, stage, at, term, phr>>
EndTerms == /\ stage = "terms" /\ left = {}
            /\ stage' = "phrases" /\ at' = 1
            /\ UNCHANGED <<words, stops, kept, left, term, len, occ, phr, tot>>
CountPhrases == /\ stage = "phrases" /\ at <= Len(words)
                /\ LET n == IF Len(words) + 1 - at < 3 THEN Len(words) + 1 - at ELSE 3
                   IN phr' = [q \in 1..3 |-> IF q > n THEN phr[q] ELSE <<phr[q][1] + 1, phr[q][2] + (IF \E j \in at..(at + q - 1) : j \notin kept THEN 1 ELSE 0)>>]
                /\ at' = at + 1
                /\ UNCHANGED <<words, stops, kept, stage, left, term, len, occ, tot>>
EndPhrases == /\ stage = "phrases" /\ at > Len(words)
              /\ stage' = "done"
              /\ UNCHANGED <<words, stops, kept, at, left, term, len, occ, phr, tot>>
Next == CountWord \/ EndWords \/ CountTerm \/ EndTerms \/ CountPhrases \/ EndPhrases
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* The tables as rows. *)
Row(f, s) == SelectSeq([i \in DOMAIN s |-> <<s[i], f[s[i]][1], f[s[i]][2]>>], LAMBDA r : r[2] > 0)
Order == << <<97>>, <<98, 195, 169>>, <<99, 226, 130, 172, 99>> >>
Counted == [stopterm |-> Row(term, SelectSeq(Order, LAMBDA w : w \in stops)), nonterm |-> Row(term, SelectSeq(Order, LAMBDA w : w \notin stops)),
            stop |-> Row([l \in 1..2 |-> len[<<TRUE, l>>]], <<1, 2>>), non |-> Row([l \in 1..2 |-> len[<<FALSE, l>>]], <<1, 2>>),
            distinct |-> Row(occ, <<1, 2, 3>>), phrase |-> Row(phr, <<1, 2, 3>>),
            stop_total |-> tot["stop"], non_total |-> tot["non"], distinct_total |-> tot["distinct"]]
AsDeclared == stage = "done" => Counted = Report(words, stops, kept)
(* The same, from runs of one word each. *)
RunsOf == TLCEval(FoldLeft(LAMBDA acc, i : IF acc # <<>> /\ acc[Len(acc)][1] = words[i] /\ acc[Len(acc)][3] = (i \in kept)
                                           THEN [acc EXCEPT ![Len(acc)] = <<@[1], @[2] + 1, @[3]>>] ELSE Append(acc, <<words[i], 1, i \in kept>>), <<>>, [i \in DOMAIN words |-> i]))
FromRuns == stage = "done" =>
  LET runs == RunsOf
  IN /\ WordsOfRuns(runs) = words /\ RecognizedInRuns(runs) = kept
     /\ PhrasesOfRuns(runs) = Phrases(words, kept)
     /\ (Cardinality({runs[i][1] : i \in DOMAIN runs}) = Len(runs) => ReportOnRuns(runs, stops) = Report(words, stops, kept))
Sums(f, S) == FoldLeft(LAMBDA x, w : <<x[1] + f[w][1], x[2] + f[w][2]>>, <<0, 0>>, SetToSeq(S))
Consistent == stage = "done" =>
  /\ tot["all"] = <<Len(words), Len(words) - Cardinality(kept)>>
  /\ tot["all"] = Sums(term, Pool) /\ tot["all"] = Sums(len, BOOLEAN \X (1..2))
  /\ <<tot["stop"][1] + tot["non"][1], tot["stop"][2] + tot["non"][2]>> = tot["all"]
  /\ tot["distinct"] = Sums(occ, 1..3)
  /\ phr[1] = tot["all"]
  /\ \A q \in 1..2 : phr[q + 1][1] = IF phr[q][1] = 0 THEN 0 ELSE phr[q][1] - 1
  (* a longer phrase is missed wherever a shorter one inside it is *)
  /\ \A q \in 1..2 : phr[q + 1][1] - phr[q + 1][2] <= phr[q][1] - phr[q][2]
AtMost(f) == \A x \in DOMAIN f : f[x][2] <= f[x][1]
NeverMoreMissed == AtMost(term) /\ AtMost(len) /\ AtMost(occ) /\ AtMost(phr) /\ AtMost(tot)
Ends == <>(stage = "done")
=============================================================================
