-------------------------------- MODULE RunWords --------------------------------
(* Long words as sequences of runs <<character, length>>, neighbouring runs of   *)
(* different characters; RunLess is the order of the words they stand for.       *)
EXTENDS Integers, Sequences, SequencesExt
Expand(r) == FlattenSeq([i \in DOMAIN r |-> [k \in 1..r[i][2] |-> r[i][1]]])
Runs(s) == FoldLeft(LAMBDA a, x : IF a # <<>> /\ a[Len(a)][1] = x THEN [a EXCEPT ![Len(a)] = <<x, @[2] + 1>>] ELSE Append(a, <<x, 1>>), <<>>, s)
RunLess(a, b) ==
  LET D == {i \in 1..(IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : a[i] # b[i]}
      i == CHOOSE x \in D : \A y \in D : x <= y
      (* the character that follows run i of r, or 0 (below every character) at its end *)
      After(r) == IF i = Len(r) THEN 0 ELSE r[i + 1][1]
  IN IF D = {} THEN Len(a) < Len(b)
     ELSE IF a[i][1] # b[i][1] THEN a[i][1] < b[i][1]
     ELSE IF a[i][2] < b[i][2] THEN After(a) < b[i][1] ELSE a[i][1] < After(b)
=============================================================================
