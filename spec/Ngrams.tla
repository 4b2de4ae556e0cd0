-------------------------------- MODULE Ngrams --------------------------------
(* N-grams of texts: sequences of [v |-> character, s |-> suspect?]. Rows are    *)
(* <<characters, count, suspect count>>.                                         *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Windows(t, n) == [k \in 1..(IF Len(t) >= n THEN Len(t) + 1 - n ELSE 0) |-> <<[i \in 1..n |-> t[k + i - 1].v], \E i \in 1..n : t[k + i - 1].s>>]
(* The texts as runs <<character, suspect?, length>>: a run of more than 2n     *)
(* characters is cut to 2n of them, which only removes windows inside the run. *)
Weighted(runs, n) ==
  LET cut(k) == IF k > 2 * n THEN 2 * n ELSE k
      short == TLCEval(FlattenSeq([j \in DOMAIN runs |-> [k \in 1..cut(runs[j][3]) |-> [v |-> runs[j][1], s |-> runs[j][2]]]]))
      ws == Windows(short, n)
  IN [k \in DOMAIN ws |-> <<ws[k][1], 1, IF ws[k][2] THEN 1 ELSE 0>>]
     \o [j \in DOMAIN runs |-> LET more == runs[j][3] - cut(runs[j][3]) IN <<[k \in 1..n |-> runs[j][1]], more, IF runs[j][2] THEN more ELSE 0>>]
(* The rows of weighted windows, sorted by their characters. *)
Merged(less(_, _), ws) ==
  FoldLeft(LAMBDA a, x : IF x[2] = 0 THEN a
                         ELSE IF a # <<>> /\ a[Len(a)][1] = x[1] THEN [a EXCEPT ![Len(a)] = <<x[1], @[2] + x[2], @[3] + x[3]>>] ELSE Append(a, x),
           <<>>, SortSeq(ws, LAMBDA x, y : less(x[1], y[1])))
Rows(less(_, _), t, n) == LET ws == TLCEval(Windows(t, n)) IN Merged(less, [k \in DOMAIN ws |-> <<ws[k][1], 1, IF ws[k][2] THEN 1 ELSE 0>>])
=============================================================================
