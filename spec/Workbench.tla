------------------------------- MODULE Workbench -------------------------------
(* Tools at work on a directory of files. Contents are numbered; `done` records,    *)
(* for each piece of work that was ever done, the number of its result. The work    *)
(* is identified by the tool, its options and the contents it reads -- nothing      *)
(* else -- and, for sums, by the reports that are ultimately summed.                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
Absent == 0
(* what the tools read (n: number of inputs; a list of kinds; "any": every file is a text) and write *)
Work(in, opts, kind, named) == [in |-> in, opts |-> opts, kind |-> kind, named |-> named]
Works == [accuracy |-> {Work(<<"text", "text">>, "", "acc", TRUE)},
          wordacc |-> {Work(<<"text", "text">>, "", "wac", TRUE)},
          editop |-> {Work(<<"text", "text">>, "", "edo", TRUE)},
          groupacc |-> {Work(<<"text", "acc">>, "", "other", TRUE)},
          nonstopacc |-> {Work(<<"text", "wac">>, "", "other", FALSE)},
          accsum |-> {Work(<<"acc", "acc">>, "", "acc", FALSE), Work(<<"acc", "acc", "acc">>, "", "acc", FALSE)},
          wordaccsum |-> {Work(<<"wac", "wac">>, "", "wac", FALSE), Work(<<"wac", "wac", "wac">>, "", "wac", FALSE)},
          editopsum |-> {Work(<<"edo", "edo">>, "", "edo", FALSE), Work(<<"edo", "edo", "edo">>, "", "edo", FALSE)},
          accci |-> {Work(<<"acc", "acc">>, "", "other", FALSE)},
          wordaccci |-> {Work(<<"wac", "wac">>, "", "other", FALSE)},
          accdist |-> {Work(<<"acc">>, "", "other", FALSE), Work(<<"acc", "acc">>, "", "other", FALSE)},
          wordaccdist |-> {Work(<<"wac">>, "", "other", FALSE), Work(<<"wac", "wac">>, "", "other", FALSE)},
          editopcost |-> {Work(<<"edo">>, "", "other", FALSE)},
          ngram |-> {Work(<<"any">>, "", "other", FALSE), Work(<<"any", "any">>, "-n2", "other", FALSE)},
          wordfreq |-> {Work(<<"any">>, "", "other", FALSE), Work(<<"any", "any">>, "", "other", FALSE)},
          synctext |-> {Work(<<"text", "text">>, o, "other", FALSE) : o \in {"", "-H", "-T", "-i"}} \cup {Work(<<"text", "text", "text">>, "", "other", FALSE)},
          vote |-> {Work(<<"text", "text">>, "", "text", TRUE), Work(<<"text", "text", "text">>, "", "text", TRUE), Work(<<"text", "text", "text">>, "-s1/2", "text", TRUE)}]
Sums == {"accsum", "wordaccsum", "editopsum"}
(* synctext labels the differences with the names that it was given *)
Labels(tool, opts, names) == IF tool = "synctext" /\ opts # "-T" THEN names ELSE <<>>
Sorted(s) == SortSeq(s, <)
(* base: the reports that a content is the sum of *)
Base(base, id) == IF id \in DOMAIN base THEN base[id] ELSE <<id>>
Key(tool, opts, ids, labels, base) ==
  [tool |-> tool, opts |-> opts, labels |-> labels,
   ids |-> IF tool \in Sums THEN Sorted(FlattenSeq([i \in DOMAIN ids |-> Base(base, ids[i])])) ELSE ids]
(* Confidence intervals need two observations: reports of no characters (words) are none. *)
Enough(tool, sizes) == tool \in {"accci", "wordaccci"} => Cardinality({i \in DOMAIN sizes : sizes[i] > 0}) >= 2
Accepts(kind, k) == kind = "any" \/ kind = k
=============================================================================
