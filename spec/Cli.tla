---------------------------------- MODULE Cli ----------------------------------
(* Command lines. An argument is a sequence of bytes. A scanner takes the          *)
(* arguments from the left; it ends with [res |-> "usage" | "error" | "run",       *)
(* flags, vals (option -> value), files].                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
DASH == 45
(* 72 H, 105 i, 115 s, 84 T, 79 O, 68 D, 111 o, 119 w, 110 n, 83 S *)
Grammar(flags, vals, min, max, out) == [flags |-> flags, vals |-> vals, min |-> min, max |-> max, out |-> out]
Many == 1000000
(* out: the last of the maximal number of files is written, not read *)
Tools == [accuracy |-> Grammar({}, {}, 2, 3, TRUE), editop |-> Grammar({68}, {}, 2, 3, TRUE), groupacc |-> Grammar({}, {}, 2, 3, TRUE),
          wordacc |-> Grammar({}, {83}, 2, 3, TRUE), nonstopacc |-> Grammar({}, {}, 2, 2, FALSE), editopcost |-> Grammar({}, {}, 1, 2, FALSE),
          ngram |-> Grammar({}, {110}, 1, Many, FALSE), wordfreq |-> Grammar({}, {}, 1, Many, FALSE),
          synctext |-> Grammar({72, 105, 115, 84}, {}, 2, 16, FALSE), vote |-> Grammar({68, 79}, {111, 115, 119}, 2, 16, FALSE),
          accsum |-> Grammar({}, {}, 2, Many, FALSE), wordaccsum |-> Grammar({}, {}, 2, Many, FALSE), editopsum |-> Grammar({}, {}, 2, Many, FALSE),
          accci |-> Grammar({}, {}, 2, Many, FALSE), wordaccci |-> Grammar({}, {}, 2, Many, FALSE),
          accdist |-> Grammar({}, {}, 1, Many, FALSE), wordaccdist |-> Grammar({}, {}, 1, Many, FALSE)]
Help == <<45, 104, 101, 108, 112>>
IsHelp(a) == Len(a) \in 2..5 /\ a = SubSeq(Help, 1, Len(a))
IsOption(a) == Len(a) >= 2 /\ a[1] = DASH
Letter(a) == a[2]
Attached(a) == SubSeq(a, 3, Len(a))
Start == [i |-> 1, flags |-> {}, vals |-> <<>>, files |-> <<>>, res |-> "scanning"]
File(st, a) == [st EXCEPT !.files = Append(@, a), !.i = @ + 1]
End(st, r) == [st EXCEPT !.res = r]
Value(st, k, v, used) == IF k \in DOMAIN st.vals THEN End(st, "error") ELSE [st EXCEPT !.vals = (k :> v) @@ @, !.i = @ + used]
Step(g, args, st) ==
  IF st.i > Len(args) THEN End(st, IF args = <<>> THEN "usage" ELSE "run")
  ELSE LET a == args[st.i] IN
    CASE ~IsOption(a) -> File(st, a)
      [] IsOption(a) /\ IsHelp(a) -> End(st, "usage")
      [] IsOption(a) /\ ~IsHelp(a) /\ Letter(a) \in g.vals ->
           IF Attached(a) # <<>> THEN Value(st, Letter(a), Attached(a), 1)
           ELSE IF st.i < Len(args) THEN Value(st, Letter(a), args[st.i + 1], 2)
           ELSE End(st, "error")
      [] IsOption(a) /\ ~IsHelp(a) /\ Letter(a) \in g.flags ->
           IF Attached(a) # <<>> \/ Letter(a) \in st.flags THEN End(st, "error") ELSE [st EXCEPT !.flags = @ \cup {Letter(a)}, !.i = @ + 1]
      [] OTHER -> End(st, "error")
(* The scan is deterministic; this is its result. *)
RECURSIVE Scan(_, _, _)
Scan(g, args, st) == IF st.res # "scanning" THEN st ELSE Scan(g, args, TLCEval(Step(g, args, st)))
(* What is required beyond the grammar of arguments. *)
IsFraction(v) == Len(v) = 3 /\ v[1] \in 49..57 /\ v[2] = 47 /\ v[3] \in v[1]..57
Readable(exists, f) == f \in exists
Creatable(f) == f # <<>>
Meaningful(tool, st, exists) ==
  LET g == Tools[tool]
      n == Len(st.files)
      reads == IF g.out /\ n = g.max THEN SubSeq(st.files, 1, n - 1) ELSE st.files
      max == IF tool = "synctext" /\ 84 \in st.flags THEN 2 ELSE g.max
  IN /\ n >= g.min /\ n <= max
     /\ \A i \in DOMAIN reads : Readable(exists, reads[i])
     /\ g.out /\ n = g.max => Creatable(st.files[n])
     /\ tool = "wordacc" /\ 83 \in DOMAIN st.vals => Readable(exists, st.vals[83])
     /\ tool = "ngram" /\ 110 \in DOMAIN st.vals => st.vals[110] \in {<<49>>, <<50>>, <<51>>}
     /\ tool = "vote" => /\ (111 \in DOMAIN st.vals => Creatable(st.vals[111]))
                         /\ \A k \in {115, 119} \cap DOMAIN st.vals : IsFraction(st.vals[k])
Interpret(tool, args, exists) ==
  LET st == Scan(Tools[tool], args, Start)
  IN IF st.res = "run" /\ ~Meaningful(tool, st, exists) THEN [st EXCEPT !.res = "error"] ELSE st
(* The same request with the options first and their values apart. *)
Canonical(st) ==
  FlattenSeq([i \in 1..Cardinality(st.flags) |-> << <<DASH, SetToSortSeq(st.flags, LAMBDA x, y : x < y)[i]>> >>])
  \o FlattenSeq([i \in 1..Cardinality(DOMAIN st.vals) |-> LET k == SetToSortSeq(DOMAIN st.vals, LAMBDA x, y : x < y)[i] IN << <<DASH, k>>, st.vals[k]>>])
  \o st.files
=============================================================================
